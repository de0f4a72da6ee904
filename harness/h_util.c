/* Header-level helpers: byte buffer (C32), time (C33), arithmetic helpers (C34), log (C35), error codes (C36), contracts and allocation (C37). */
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include "embc/platform.h"
#include "embc/log.h"
enum { DEFAULT_LEVEL = EMBC_LOG_LEVEL, DEFAULT_GLOBAL = EMBC_LOG_GLOBAL_LEVEL };
static int cfg_level = EMBC_LOG_LEVEL_ALL, cfg_global = EMBC_LOG_LEVEL_ALL;
#undef EMBC_LOG_LEVEL
#define EMBC_LOG_LEVEL (cfg_level)
#undef EMBC_LOG_GLOBAL_LEVEL
#define EMBC_LOG_GLOBAL_LEVEL (cfg_global)
#include "embc/bbuf.h"
#include "embc/time.h"
#include "embc/cdef.h"
#include "embc/ec.h"
#include "embc/dbc.h"
#include "embc/argchk.h"
#include "embc/assert.h"
#include "embc/lib.h"

/* ------------------------------------------------------------ C32 */
#define GUARD 16
static uint8_t area[64];
static int pos, width, big;
static uint64_t patch(uint64_t v) { return width == 8 ? v : v & ((1ull << (8 * width)) - 1); }
static void fill(uint8_t g) { memset(area, g, sizeof(area)); }
static void verify(uint64_t v, uint8_t g, const char * what) {
    for (int i = 0; i < (int) sizeof(area); ++i) {
        uint8_t e = g;
        int k = i - pos;
        if (k >= 0 && k < width) { e = (uint8_t) (v >> (8 * (big ? width - 1 - k : k))); }
        mc_check(area[i] == e, "%s of 0x%llx at %d: byte %d is 0x%02x, expected 0x%02x", what, (unsigned long long) v, pos, i, area[i], e);
    }
}
static void put(uint64_t v) {           /* independent reference placement */
    for (int k = 0; k < width; ++k) { area[pos + k] = (uint8_t) (v >> (8 * (big ? width - 1 - k : k))); }
}
#define ENC(MACRO, FN, T) do { \
    fill(g); MACRO(area + pos, (T) v); verify(v, g, #MACRO); \
    fill(g); uint8_t * p_ = area + pos; FN(&p_, (T) v); verify(v, g, #FN); \
    mc_check(p_ == area + pos + width, #FN " advanced by %d", (int) (p_ - area - pos)); } while (0)
#define DEC(MACRO, FN) do { \
    uint64_t a_ = MACRO(area + pos); mc_check(a_ == v, #MACRO " gave 0x%llx, expected 0x%llx", (unsigned long long) a_, (unsigned long long) v); \
    const uint8_t * p_ = area + pos; uint64_t b_ = FN(&p_); mc_check(b_ == v, #FN " gave 0x%llx, expected 0x%llx", (unsigned long long) b_, (unsigned long long) v); \
    mc_check(p_ == area + pos + width, #FN " advanced by %d", (int) (p_ - area - pos)); \
    verify(v, g, "decode"); } while (0)
static void bbuf_one(uint64_t v, uint8_t g) {
    switch (width * 2 + big) {
        case 2: case 3: ENC(EMBC_BBUF_ENCODE_U8, embc_bbuf_unsafe_encode_u8, uint8_t); break;
        case 4: ENC(EMBC_BBUF_ENCODE_U16_LE, embc_bbuf_unsafe_encode_u16_le, uint16_t); break;
        case 5: ENC(EMBC_BBUF_ENCODE_U16_BE, embc_bbuf_unsafe_encode_u16_be, uint16_t); break;
        case 8: ENC(EMBC_BBUF_ENCODE_U32_LE, embc_bbuf_unsafe_encode_u32_le, uint32_t); break;
        case 9: ENC(EMBC_BBUF_ENCODE_U32_BE, embc_bbuf_unsafe_encode_u32_be, uint32_t); break;
        case 16: ENC(EMBC_BBUF_ENCODE_U64_LE, embc_bbuf_unsafe_encode_u64_le, uint64_t); break;
        case 17: ENC(EMBC_BBUF_ENCODE_U64_BE, embc_bbuf_unsafe_encode_u64_be, uint64_t); break;
    }
    fill(g); put(v);
    switch (width * 2 + big) {
        case 2: case 3: DEC(EMBC_BBUF_DECODE_U8, embc_bbuf_unsafe_decode_u8); break;
        case 4: DEC(EMBC_BBUF_DECODE_U16_LE, embc_bbuf_unsafe_decode_u16_le); break;
        case 5: DEC(EMBC_BBUF_DECODE_U16_BE, embc_bbuf_unsafe_decode_u16_be); break;
        case 8: DEC(EMBC_BBUF_DECODE_U32_LE, embc_bbuf_unsafe_decode_u32_le); break;
        case 9: DEC(EMBC_BBUF_DECODE_U32_BE, embc_bbuf_unsafe_decode_u32_be); break;
        case 16: DEC(EMBC_BBUF_DECODE_U64_LE, embc_bbuf_unsafe_decode_u64_le); break;
        case 17: DEC(EMBC_BBUF_DECODE_U64_BE, embc_bbuf_unsafe_decode_u64_be); break;
    }
}
static void bbuf_small_run(void) {      /* every 8- and 16-bit value */
    width = 1 + mc_choose(2); big = mc_choose(2); pos = GUARD + mc_choose(mc_tier(4, 8));
    uint8_t g = mc_choose(2) ? 0xa5 : 0x5a;
    mc_op("all %d-byte values at %d", width, pos);
    for (uint32_t v = 0; v < (width == 1 ? 256u : 65536u); ++v) { bbuf_one(v, g); if (!(v & 255)) { mc_tick(); mc_count(256); } }
}
static void bbuf_bytes_run(void) {      /* 4- and 8-byte values, every byte from an alphabet */
    static const uint8_t al[] = {0x00, 0xff, 0x80, 0x7f, 0x01, 0x35};
    width = mc_arg; big = mc_choose(2); pos = GUARD + mc_choose(8);
    int n = width == 4 ? 6 : mc_tier(3, 5);
    uint8_t g = mc_choose(2) ? 0xa5 : 0x5a;
    uint64_t base = 0, total = 1;
    for (int i = 0; i < width; ++i) { total *= n; }
    mc_op("%d-byte values from an alphabet of %d at %d", width, n, pos);
    for (uint64_t t = 0; t < total; ++t) {
        uint64_t v = 0, x = t;
        for (int i = 0; i < width; ++i) { v = v << 8 | al[x % n]; x /= n; }
        bbuf_one(v, g);
        if (!(t & 255)) { mc_tick(); mc_count(256); }
    }
    (void) base;
}
static void bbuf_bits_run(void) {       /* one or two bits, or a counting pattern */
    width = mc_arg; big = mc_choose(2); pos = GUARD + mc_choose(8);
    mc_op("bit patterns, %d bytes at %d", width, pos);
    for (int i = 0; i < 8 * width; ++i) {
        for (int j = 0; j < 8 * width; ++j) {
            uint64_t v = patch(1ull << i | 1ull << j);
            bbuf_one(v, 0x5a); bbuf_one(patch(~v), 0xa5);
        }
        mc_tick(); mc_count(2 * 8 * width);
    }
    bbuf_one(patch(0x0123456789abcdefull), 0); bbuf_one(patch(0xfedcba9876543210ull), 0);
}
static void bbuf_usage_run(void) {      /* as a statement, in an expression, with any argument expression and type */
    uint64_t v = 0x8899aabbccddeeffull;
    static const uint64_t vals[] = {0x8899aabbccddeeffull, 5, 0, 0x80000000ull, 0xffffffffull, 0x8000000000000001ull};
    v = vals[mc_choose(6)];
    int cond = mc_choose(2);
    mc_op("macro usage with 0x%llx", (unsigned long long) v);
    uint8_t * p = area + GUARD; pos = GUARD;
#define UNDER_IF(W, B, M, T) do { width = W; big = B; fill(0x5a); if (cond) M(p, (T) v); if (cond) { verify(patch(v), 0x5a, "if (1) " #M); } else { width = 0; verify(0, 0x5a, "if (0) " #M); } } while (0)
    UNDER_IF(1, 0, EMBC_BBUF_ENCODE_U8, uint8_t);
    UNDER_IF(2, 1, EMBC_BBUF_ENCODE_U16_BE, uint16_t); UNDER_IF(2, 0, EMBC_BBUF_ENCODE_U16_LE, uint16_t);
    UNDER_IF(4, 1, EMBC_BBUF_ENCODE_U32_BE, uint32_t); UNDER_IF(4, 0, EMBC_BBUF_ENCODE_U32_LE, uint32_t);
    UNDER_IF(8, 1, EMBC_BBUF_ENCODE_U64_BE, uint64_t); UNDER_IF(8, 0, EMBC_BBUF_ENCODE_U64_LE, uint64_t);
    /* conditional and sum expressions as arguments */
    uint8_t * alt = area + GUARD + 9;
#define EXPR(W, B, M, D) do { width = W; big = B; pos = cond ? GUARD : GUARD + 9; fill(0x33); M(cond ? p : alt, cond ? v : v); verify(patch(v), 0x33, #M " of an expression"); \
    uint64_t d_ = D(cond ? p : alt) + 1; mc_check(d_ == (W < 8 && W != 4 ? patch(v) + 1 : W == 4 ? (uint32_t) (patch(v) + 1) : v + 1), #D " in an expression gave 0x%llx", (unsigned long long) d_); } while (0)
    EXPR(1, 0, EMBC_BBUF_ENCODE_U8, EMBC_BBUF_DECODE_U8);
    EXPR(2, 1, EMBC_BBUF_ENCODE_U16_BE, EMBC_BBUF_DECODE_U16_BE); EXPR(2, 0, EMBC_BBUF_ENCODE_U16_LE, EMBC_BBUF_DECODE_U16_LE);
    EXPR(4, 1, EMBC_BBUF_ENCODE_U32_BE, EMBC_BBUF_DECODE_U32_BE); EXPR(4, 0, EMBC_BBUF_ENCODE_U32_LE, EMBC_BBUF_DECODE_U32_LE);
    EXPR(8, 1, EMBC_BBUF_ENCODE_U64_BE, EMBC_BBUF_DECODE_U64_BE); EXPR(8, 0, EMBC_BBUF_ENCODE_U64_LE, EMBC_BBUF_DECODE_U64_LE);
    /* narrower values */
    volatile uint8_t v8 = (uint8_t) v; volatile uint16_t v16 = (uint16_t) v; volatile uint32_t v32 = (uint32_t) v; pos = GUARD;
#define NARROW(W, B, M, X) do { width = W; big = B; fill(0x71); M(p, X); verify(X, 0x71, #M " of a narrower value"); } while (0)
    NARROW(2, 1, EMBC_BBUF_ENCODE_U16_BE, v8); NARROW(2, 0, EMBC_BBUF_ENCODE_U16_LE, v8);
    NARROW(4, 1, EMBC_BBUF_ENCODE_U32_BE, v8); NARROW(4, 0, EMBC_BBUF_ENCODE_U32_LE, v8);
    NARROW(4, 1, EMBC_BBUF_ENCODE_U32_BE, v16); NARROW(4, 0, EMBC_BBUF_ENCODE_U32_LE, v16);
    NARROW(8, 1, EMBC_BBUF_ENCODE_U64_BE, v8); NARROW(8, 0, EMBC_BBUF_ENCODE_U64_LE, v8);
    NARROW(8, 1, EMBC_BBUF_ENCODE_U64_BE, v32); NARROW(8, 0, EMBC_BBUF_ENCODE_U64_LE, v32);
}
static void bbuf_sequence_run(void) {   /* a sequence of fields packed and unpacked with the cursor functions */
    int f[4], n = mc_tier(3, 4); uint8_t * w = area + GUARD; const uint8_t * r = area + GUARD; uint64_t v[4];
    static const int W[] = {1, 2, 2, 4, 4, 8, 8}, B[] = {0, 0, 1, 0, 1, 0, 1};
    uint8_t model[64]; memset(model, 0xee, 64); fill(0xee);
    int at = GUARD;
    for (int i = 0; i < n; ++i) {
        f[i] = mc_choose(7); v[i] = mc_choose(2) ? 0x8182838485868788ull : 0x0102030405060708ull;
        width = W[f[i]]; big = B[f[i]]; v[i] = patch(v[i]);
        for (int k = 0; k < width; ++k) { model[at + k] = (uint8_t) (v[i] >> (8 * (big ? width - 1 - k : k))); }
        at += width;
        mc_op("field of %d bytes, %s endian", width, big ? "big" : "little");
        switch (f[i]) {
            case 0: embc_bbuf_unsafe_encode_u8(&w, (uint8_t) v[i]); break;
            case 1: embc_bbuf_unsafe_encode_u16_le(&w, (uint16_t) v[i]); break; case 2: embc_bbuf_unsafe_encode_u16_be(&w, (uint16_t) v[i]); break;
            case 3: embc_bbuf_unsafe_encode_u32_le(&w, (uint32_t) v[i]); break; case 4: embc_bbuf_unsafe_encode_u32_be(&w, (uint32_t) v[i]); break;
            case 5: embc_bbuf_unsafe_encode_u64_le(&w, v[i]); break; case 6: embc_bbuf_unsafe_encode_u64_be(&w, v[i]); break;
        }
        mc_check(w == area + at && 0 == memcmp(area, model, 64), "field %d is misplaced", i);
    }
    for (int i = 0; i < n; ++i) {
        uint64_t d = 0;
        switch (f[i]) {
            case 0: d = embc_bbuf_unsafe_decode_u8(&r); break;
            case 1: d = embc_bbuf_unsafe_decode_u16_le(&r); break; case 2: d = embc_bbuf_unsafe_decode_u16_be(&r); break;
            case 3: d = embc_bbuf_unsafe_decode_u32_le(&r); break; case 4: d = embc_bbuf_unsafe_decode_u32_be(&r); break;
            case 5: d = embc_bbuf_unsafe_decode_u64_le(&r); break; case 6: d = embc_bbuf_unsafe_decode_u64_be(&r); break;
        }
        mc_check(d == v[i], "field %d decoded as 0x%llx", i, (unsigned long long) d);
    }
    mc_check(r == w, "decoding ended elsewhere");
}
static const struct mc_scenario c32[] = {
    {"usage", bbuf_usage_run, 0, 0, 0, 0}, {"sequences", bbuf_sequence_run, 0, 0, 0, 0}, {"bits 2", bbuf_bits_run, 0, 0, 2, 0}, {"bits 4", bbuf_bits_run, 0, 0, 4, 0}, {"bits 8", bbuf_bits_run, 0, 0, 8, 0},
    {"small values", bbuf_small_run, 0, 0, 0, 0}, {"bytes 4", bbuf_bytes_run, 0, 0, 4, 0}, {"bytes 8", bbuf_bytes_run, 0, 0, 8, 0}, {0}
};

/* ------------------------------------------------------------ C33 */
typedef __int128 i128;
static const int64_t freqs[] = {1, 1000, 1000000, 1000000000ll, 2, 3, 7, 10, 24, 60, 100, 1024, 32768, 44100, 48000, 65536, 999983, 16000000, 72000000, 100000000, 1 << 20, 1 << 29, 1 << 30, 500000000};
#define NFREQ ((int) (sizeof(freqs) / sizeof(freqs[0])))
static i128 floordiv(i128 a, i128 b) { i128 q = a / b; return (a % b != 0 && (a < 0) != (b < 0)) ? q - 1 : q; }
static int fits(i128 v) { return v < ((i128) 1 << 63) && v >= -((i128) 1 << 63); }
static void time_one(int64_t x, int64_t z) {     /* time -> ticks */
    i128 p = (i128) x * z, half = (i128) 1 << 29;
    if (!fits(p + 2 * half) || !fits(p - 2 * half)) { return; }
    int64_t near = (int64_t) floordiv(p + half, (i128) 1 << 30), up = (int64_t) -floordiv(-p, (i128) 1 << 30), down = (int64_t) floordiv(p, (i128) 1 << 30);
    int64_t g = EMBC_TIME_TO_COUNTER(x, z);
    int tie = (p + half) % ((i128) 1 << 30) == 0;    /* the direction of exact ties is not specified */
    mc_check(g == near || (tie && g == near - 1), "TO_COUNTER(%lld, %lld) is %lld, nearest is %lld", (long long) x, (long long) z, (long long) g, (long long) near);
    g = EMBC_TIME_TO_COUNTER_ROUND_UP(x, z); mc_check(g == up, "ROUND_UP(%lld, %lld) is %lld, expected %lld", (long long) x, (long long) z, (long long) g, (long long) up);
    g = EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z); mc_check(g == down, "ROUND_DOWN(%lld, %lld) is %lld, expected %lld", (long long) x, (long long) z, (long long) g, (long long) down);
#define UNIT(M, Z) if (z == Z) { g = M(x); mc_check(g == near || (tie && g == near - 1), #M "(%lld) is %lld, expected %lld", (long long) x, (long long) g, (long long) near); }
    UNIT(EMBC_TIME_TO_SECONDS, 1) UNIT(EMBC_TIME_TO_MILLISECONDS, 1000) UNIT(EMBC_TIME_TO_MICROSECONDS, 1000000) UNIT(EMBC_TIME_TO_NANOSECONDS, 1000000000ll)
}
static void ticks_one(int64_t n, int64_t z) {    /* ticks -> time -> ticks */
    if (n >= (1ll << 33) || n < -(1ll << 33)) { return; }
    int64_t t = EMBC_COUNTER_TO_TIME(n, z);
    i128 err = (i128) t * z - ((i128) n << 30);
    mc_check(err < z && err > -z, "COUNTER_TO_TIME(%lld, %lld) is %lld, off by more than one unit", (long long) n, (long long) z, (long long) t);
    if (((i128) n << 30) % z == 0) { mc_check(err == 0, "COUNTER_TO_TIME(%lld, %lld) is not exact", (long long) n, (long long) z); }
#define TUNIT(M, Z) if (z == Z) { int64_t g = M(n); mc_check(g == t, #M "(%lld) is %lld, expected %lld", (long long) n, (long long) g, (long long) t); }
    TUNIT(EMBC_SECONDS_TO_TIME, 1) TUNIT(EMBC_MILLISECONDS_TO_TIME, 1000) TUNIT(EMBC_MICROSECONDS_TO_TIME, 1000000) TUNIT(EMBC_NANOSECONDS_TO_TIME, 1000000000ll)
    if (z < (1 << 29)) { int64_t b = EMBC_TIME_TO_COUNTER(t, z); mc_check(b == n, "%lld ticks of 1/%lld s came back as %lld", (long long) n, (long long) z, (long long) b); }
}
static int64_t spot(int i) {            /* interesting 64-bit values: powers of two and unit sizes */
    static const int64_t units[] = {1073741, 1073, 1073741824ll * 60, 1073741824ll * 3600, 1073741824ll * 86400, 1000, 1000000, 1000000000, 1073741824ll * 31536000, 0x7fffffffffffffffll};
    if (i < 63) { return 1ll << i; }
    return units[i - 63];
}
#define NSPOT 73
static void time_edge_run(void) {
    int zi = mc_choose(NFREQ), si = mc_choose(NSPOT), neg = mc_choose(2);
    int64_t z = freqs[zi], s = spot(si), span = mc_tier(40, 1000);
    mc_op("around %s%lld at %lld Hz", neg ? "-" : "", (long long) s, (long long) z);
    int64_t prev = INT64_MIN, prevt = INT64_MIN; int first = 1;
    for (int64_t d = -span; d <= span; ++d) {
        if (d > 0 && s > INT64_MAX - d) { break; }
        int64_t x = neg ? -(s + d) : s + d;
        time_one(x, z);
        ticks_one(x, z);
        (void) prev; (void) prevt; (void) first;
    }
    /* the rounding steps */
    for (int64_t k = -20; k <= 20; ++k) {
        i128 c = ((i128) (neg ? -s : s) + k);
        i128 x = floordiv((c << 30), z), h = floordiv((c << 30) + ((i128) 1 << 29), z);
        for (int d = -2; d <= 2; ++d) {
            if (fits(x + d)) { time_one((int64_t) (x + d), z); }
            if (fits(h + d)) { time_one((int64_t) (h + d), z); }
        }
    }
    mc_count(2 * span);
    mc_state(mc_mix(mc_mix(zi, si), neg));
}
static void time_near_zero_run(void) {
    int zi = mc_choose(NFREQ), blk = mc_choose(64);
    mc_op("small times at %lld Hz, block %d", (long long) freqs[zi], blk);
    int n = mc_tier(1024, 16384);
    for (int i = 0; i < n; ++i) { int64_t x = (int64_t) blk * n + i - 32 * n; time_one(x, freqs[zi]); ticks_one(x, freqs[zi]); }
    mc_count(2 * n);
}
static void time_monotone_run(void) {   /* order is kept, both ways */
    int zi = mc_choose(NFREQ), si = mc_choose(NSPOT), neg = mc_choose(2);
    int64_t z = freqs[zi], s = spot(si); if (neg) { s = -s; }
    mc_op("monotone around %lld at %lld Hz", (long long) s, (long long) z);
    int64_t p1 = INT64_MIN, p2 = INT64_MIN, p3 = INT64_MIN, p4 = INT64_MIN; double pf = -INFINITY;
    for (int64_t d = -200; d <= 200; ++d) {
        if (!fits((i128) s + d)) { continue; }
        int64_t x = s + d; i128 p = (i128) x * z;
        if (fits(p + (1ll << 30)) && fits(p - (1ll << 30))) {
            int64_t a = EMBC_TIME_TO_COUNTER(x, z), b = EMBC_TIME_TO_COUNTER_ROUND_UP(x, z), c = EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z);
            mc_check(a >= p1 && b >= p2 && c >= p3 && c <= a && a <= b, "order not kept at %lld", (long long) x); p1 = a; p2 = b; p3 = c;
        }
        if (x < (1ll << 33) && x >= -(1ll << 33)) { int64_t e = EMBC_COUNTER_TO_TIME(x, z); mc_check(e >= p4, "COUNTER_TO_TIME order not kept at %lld", (long long) x); p4 = e; }
        double f = EMBC_TIME_TO_F64(x);
        mc_check(f >= pf, "TIME_TO_F64 order not kept"); pf = f;
    }
    mc_count(401);
}
static void time_float_run(void) {
    int si = mc_choose(NSPOT), neg = mc_choose(2), k = mc_choose(3);
    int64_t s = spot(si) ; if (neg) { s = -s; } if (!fits((i128) s + k - 1)) { return; } s += k - 1;
    mc_op("floating point of %lld", (long long) s);
    double d = EMBC_TIME_TO_F64(s), want = ldexp((double) s, -30);
    mc_check(d == want, "TIME_TO_F64(%lld) is %.20g, expected %.20g", (long long) s, d, want);
    if (s < (1ll << 53) && s > -(1ll << 53)) { int64_t b = EMBC_F64_TO_TIME(d); mc_check(b == s, "%lld came back from double as %lld", (long long) s, (long long) b); }
    float f = EMBC_TIME_TO_F32(s); double e = fabs((double) f - want);
    mc_check(e <= ldexp(fabs(want), -24), "TIME_TO_F32(%lld) is %.12g, expected about %.12g", (long long) s, (double) f, want);
    if (s < (1ll << 24) && s > -(1ll << 24)) { int64_t b = EMBC_F32_TO_TIME(f); mc_check(b == s, "%lld came back from float as %lld", (long long) s, (long long) b); }
    /* fractions of one unit: within one unit */
    for (int j = 0; j < 16; ++j) {
        if (s > (1ll << 47) || s < -(1ll << 47)) { break; }
        double u = (double) s + j / 16.0; int64_t t = EMBC_F64_TO_TIME(ldexp(u, -30));
        mc_check(fabs((double) t - u) < 1.0 && (j || t == s), "F64_TO_TIME of %.6f units is %lld", u, (long long) t);
    }
    mc_check(EMBC_F64_TO_TIME(0.5) == 1 << 29 && EMBC_F64_TO_TIME(-0.5) == -(1 << 29) && EMBC_F32_TO_TIME(1.5f) == 3 << 29 && EMBC_F64_TO_TIME(1) == EMBC_TIME_SECOND && EMBC_F64_TO_TIME(1 + 1) == 2 * EMBC_TIME_SECOND && EMBC_F32_TO_TIME(1 + 1) == 2 * EMBC_TIME_SECOND, "simple conversions");
    int64_t a = EMBC_TIME_ABS(s); mc_check(a == (s < 0 ? -s : s), "ABS(%lld) is %lld", (long long) s, (long long) a);
}
static void time_usage_run(void) {      /* argument types and expressions; constants */
    static const int64_t xs[] = {0, 1, -1, 1ll << 29, -(1ll << 29), 1ll << 30, -(1ll << 30), 3ll << 30, -(7ll << 29), 123456789012ll, -123456789012ll};
    int64_t x = xs[mc_choose(11)]; int zi = mc_choose(NFREQ); int64_t z = freqs[zi];
    mc_op("usage with %lld at %lld Hz", (long long) x, (long long) z);
    volatile uint32_t z32 = (uint32_t) z; volatile uint64_t z64 = (uint64_t) z; volatile int zi32 = (int) z;
    int64_t near = EMBC_TIME_TO_COUNTER(x, z), up = EMBC_TIME_TO_COUNTER_ROUND_UP(x, z), down = EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z);
    mc_check((int64_t) EMBC_TIME_TO_COUNTER(x, z32) == near && (int64_t) EMBC_TIME_TO_COUNTER(x, z64) == near && EMBC_TIME_TO_COUNTER(x, zi32) == near && EMBC_TIME_TO_COUNTER(x + 5 - 5, z - 1 + 1) == near, "TO_COUNTER depends on the type or form of its arguments");
    mc_check((int64_t) EMBC_TIME_TO_COUNTER_ROUND_UP(x, z32) == up && (int64_t) EMBC_TIME_TO_COUNTER_ROUND_UP(x, z64) == up && EMBC_TIME_TO_COUNTER_ROUND_UP(x + 5 - 5, z - 1 + 1) == up, "ROUND_UP depends on the type or form of its arguments");
    mc_check((int64_t) EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z32) == down && (int64_t) EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z64) == down && EMBC_TIME_TO_COUNTER_ROUND_DOWN(x + 5 - 5, z - 1 + 1) == down, "ROUND_DOWN depends on the type or form of its arguments");
    if (x > -(1ll << 31) && x < (1ll << 31)) {
        int x32 = (int) x; int64_t t = EMBC_COUNTER_TO_TIME(x, z);
        mc_check(EMBC_COUNTER_TO_TIME(x32, z) == t && EMBC_COUNTER_TO_TIME(x32, z64) == t && EMBC_COUNTER_TO_TIME(x + 3 - 3, z - 1 + 1) == t, "COUNTER_TO_TIME depends on the type or form of its arguments");
        mc_check(EMBC_SECONDS_TO_TIME(x32) == x * (1ll << 30) && EMBC_SECONDS_TO_TIME(x32 + 1) == (x + 1) * (1ll << 30), "SECONDS_TO_TIME");
        mc_check(EMBC_TIME_TO_COUNTER(x32, z) == near, "TO_COUNTER of a 32-bit time");
        mc_check(EMBC_MILLISECONDS_TO_TIME(x32) == EMBC_COUNTER_TO_TIME(x, 1000) && EMBC_MICROSECONDS_TO_TIME(x32) == EMBC_COUNTER_TO_TIME(x, 1000000), "unit conversions");
    }
    mc_check(EMBC_TIME_Q == 30 && EMBC_TIME_SECOND == 1073741824ll && EMBC_TIME_MINUTE == 60 * 1073741824ll && EMBC_TIME_HOUR == 3600 * 1073741824ll && EMBC_TIME_DAY == 86400 * 1073741824ll
        && EMBC_TIME_WEEK == 7 * 86400 * 1073741824ll && EMBC_TIME_YEAR == 365 * 86400 * 1073741824ll && EMBC_TIME_MONTH == EMBC_TIME_YEAR / 12, "unit constants");
    mc_check(llabs(EMBC_TIME_MILLISECOND * 1000 - EMBC_TIME_SECOND) < 1000 && llabs(EMBC_TIME_MICROSECOND * 1000000 - EMBC_TIME_SECOND) < 1000000 && EMBC_TIME_NANOSECOND == 1, "approximate unit constants");
    mc_check(EMBC_TIME_MAX == INT64_MAX && EMBC_TIME_MIN == INT64_MIN && EMBC_TIME_EPOCH_UNIX_OFFSET_SECONDS == (48ll * 365 + 12) * 86400, "limits and epoch");
}
static const struct mc_scenario c33[] = {
    {"usage", time_usage_run, 0, 0, 0, 0}, {"floating point", time_float_run, 0, 0, 0, 0}, {"monotone", time_monotone_run, 0, 0, 0, 0}, {"near zero", time_near_zero_run, 0, 0, 0, 0}, {"edges", time_edge_run, 0, 0, 0, 0}, {0}
};

/* ------------------------------------------------------------ C34 */
static void bits_one(uint32_t x) {
    uint32_t c = x ? (uint32_t) __builtin_clz(x) : 32;
    uint32_t g = embc_clz(x);
    if (g != c) { mc_fail("clz(0x%08x) is %u, expected %u", x, g, c); }
    if (x && x <= 0x80000000u) {
        uint32_t w = x == 1 ? 1 : 1u << (32 - __builtin_clz(x - 1));
        g = embc_upper_power_of_two(x);
        if (g != w) { mc_fail("upper_power_of_two(0x%08x) is 0x%x, expected 0x%x", x, g, w); }
    }
}
static void bits_all_run(void) {        /* every 32-bit value when thorough; every value with one of 256 upper halves when quick */
    int hi = mc_choose(256);
    mc_op("values 0x%02x......", hi);
    if (mc_thorough) { for (uint32_t v = 0; v < 1u << 24; ++v) { bits_one((uint32_t) hi << 24 | v); if (!(v & 0xffff)) { mc_tick(); } } mc_count(1 << 24); }
    else { for (uint32_t v = 0; v < 1u << 24; v += 97) { bits_one((uint32_t) hi << 24 | v); if (!(v & 0xffff)) { mc_tick(); } }
        for (int b = 0; b < 24; ++b) { for (int d = -300; d <= 300; ++d) { bits_one(((uint32_t) hi << 24 | 1u << b) + d); } } mc_count((1 << 24) / 97); }
}
static void bits_low_run(void) {
    int blk = mc_choose(64);
    mc_op("values 0x%x0000", blk);
    for (uint32_t v = 0; v < 65536; ++v) { bits_one((uint32_t) blk << 16 | v); bits_one(v << 16 | blk); bits_one(~v); }
    for (int i = 0; i < 32; ++i) { for (int j = 0; j < 32; ++j) { bits_one(1u << i | 1u << j); bits_one(~(1u << i | 1u << j)); bits_one((1u << i) - (1u << j)); bits_one((1u << i) + j - 16); } }
    mc_count(65536 * 3 + 4096);
}
static void range_run(void) {
    int x = mc_choose(256) - 128;
    mc_op("restrict to range and signum of %d", x);
    for (int lo = -128; lo < 128; lo += mc_tier(3, 1)) {
        for (int hi = lo; hi < 128; ++hi) {
            int e = x < lo ? lo : x > hi ? hi : x;
            int g = EMBC_RESTRICT_TO_RANGE(x, lo, hi);
            if (g != e) { mc_fail("RESTRICT_TO_RANGE(%d, %d, %d) is %d", x, lo, hi, g); }
            int8_t x8 = (int8_t) x; g = EMBC_RESTRICT_TO_RANGE(x8, (int8_t) lo, (int8_t) hi);
            if (g != e) { mc_fail("RESTRICT_TO_RANGE of bytes (%d, %d, %d) is %d", x, lo, hi, g); }
        }
    }
    mc_count(32768);
    mc_check(EMBC_SIGNUM(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "SIGNUM(%d)", x);
    int64_t big = (int64_t) x << 33; double d = x / 1000.0; float f = x * 1e-30f; uint32_t u = (uint32_t) x;
    mc_check(EMBC_SIGNUM(big) == (x > 0 ? 1 : x < 0 ? -1 : 0) && EMBC_SIGNUM(d) == (x > 0 ? 1 : x < 0 ? -1 : 0) && EMBC_SIGNUM(f) == (x > 0 ? 1 : x < 0 ? -1 : 0) && EMBC_SIGNUM(u) == (u ? 1 : 0), "SIGNUM of wider types of %d", x);
    mc_check(EMBC_SIGNUM(x + 1) == (x + 1 > 0 ? 1 : x + 1 < 0 ? -1 : 0) && EMBC_SIGNUM(INT64_MIN) == -1 && EMBC_SIGNUM(INT64_MAX) == 1 && EMBC_SIGNUM(INT32_MIN) == -1, "SIGNUM of extremes");
    mc_check(EMBC_RESTRICT_TO_RANGE(big, -5ll, 5ll) == (x < 0 ? -5 : x > 0 ? 5 : 0), "RESTRICT_TO_RANGE of 64 bits");
    mc_check(EMBC_RESTRICT_TO_RANGE(d, -0.05, 0.05) == (d < -0.05 ? -0.05 : d > 0.05 ? 0.05 : d), "RESTRICT_TO_RANGE of a double");
    mc_check(EMBC_RESTRICT_TO_RANGE(u, 10u, 0xffffff00u) == (u < 10 ? 10 : u > 0xffffff00u ? 0xffffff00u : u), "RESTRICT_TO_RANGE unsigned");
    int64_t r = EMBC_RESTRICT_TO_RANGE(x & 15 ? big : -big, x - 300, x + 300) - 1;
    int64_t in = x & 15 ? big : -big;
    mc_check(r == (in < x - 300 ? x - 300 : in > x + 300 ? x + 300 : in) - 1, "RESTRICT_TO_RANGE of expressions");
}
static void round_run(void) {
    int m = 1 + mc_choose(mc_tier(140, 300));
    mc_op("round up to multiples of %d", m);
    for (int x = -700; x <= 700; ++x) {
        int a = abs(x), e = (a + m - 1) / m * m; if (x < 0) { e = -e; }
        int g = EMBC_ROUND_UP_TO_MULTIPLE(x, m);
        mc_check(g == e, "ROUND_UP_TO_MULTIPLE(%d, %d) is %d, expected %d", x, m, g, e);
        mc_check(EMBC_ROUND_UP_TO_MULTIPLE(x + 1 - 1, m - 1 + 1) == e, "ROUND_UP_TO_MULTIPLE of expressions (%d, %d)", x, m);
        int64_t X = x, M = m; mc_check(EMBC_ROUND_UP_TO_MULTIPLE(X, M) == e, "ROUND_UP_TO_MULTIPLE of 64 bits (%d, %d)", x, m);
        X = (int64_t) x * 0x100000001ll; int64_t A = llabs(X), E = (A + M - 1) / M * M; if (x < 0) { E = -E; }
        mc_check(EMBC_ROUND_UP_TO_MULTIPLE(X, M) == E, "ROUND_UP_TO_MULTIPLE of large values (%lld, %d)", (long long) X, m);
        if (x >= 0) {
            uint32_t ux = (uint32_t) x, um = (uint32_t) m; size_t sx = x;
            mc_check(EMBC_ROUND_UP_TO_MULTIPLE(ux, um) == (uint32_t) e && EMBC_ROUND_UP_TO_MULTIPLE(sx, m) == (size_t) e && EMBC_ROUND_UP_TO_MULTIPLE(ux, m) == (uint32_t) e, "ROUND_UP_TO_MULTIPLE unsigned (%d, %d)", x, m);
            ux += 0x80000000u; mc_check(EMBC_ROUND_UP_TO_MULTIPLE(ux, um) == (uint32_t) (((uint64_t) ux + um - 1) / um * um), "ROUND_UP_TO_MULTIPLE large unsigned (%u, %d)", ux, m);
        }
    }
    mc_count(1401 * 4);
}
struct cont_s { uint8_t a; uint16_t b[3]; struct { uint32_t x; uint8_t y[5]; } c; uint8_t d[7]; int64_t e; };
static void struct_run(void) {
    static struct cont_s s[3]; struct cont_s guard[3];
    int i = mc_choose(3), fillv = mc_choose(2) ? 0xa5 : 0xff, n = mc_choose(10), off = mc_choose(10);
    mc_op("structure helpers %d %d %d", i, n, off);
    mc_check(EMBC_CONTAINER_OF(&s[i].a, struct cont_s, a) == &s[i] && EMBC_CONTAINER_OF(&s[i].b, struct cont_s, b) == &s[i] && EMBC_CONTAINER_OF(&s[i].c.y, struct cont_s, c.y) == &s[i] && EMBC_CONTAINER_OF(&s[i].d, struct cont_s, d) == &s[i] && EMBC_CONTAINER_OF(&s[i].e, struct cont_s, e) == &s[i], "CONTAINER_OF");
    mc_check(EMBC_CONTAINER_OF(s[i].b + 2, struct cont_s, b[2]) == &s[i] && EMBC_CONTAINER_OF(&s[i].b[1] + 1, struct cont_s, b[2])->d == s[i].d && EMBC_CONTAINER_OF(i ? &s[i].e : &s[0].e, struct cont_s, e) == &s[i], "CONTAINER_OF of expressions");
    uint8_t a1[1]; uint32_t a7[7]; struct cont_s a3[3]; char str[] = "hello"; int aa[4][5];
    mc_check(EMBC_ARRAY_SIZE(a1) == 1 && EMBC_ARRAY_SIZE(a7) == 7 && EMBC_ARRAY_SIZE(a3) == 3 && EMBC_ARRAY_SIZE(str) == 6 && EMBC_ARRAY_SIZE(aa) == 4 && EMBC_ARRAY_SIZE(aa[0]) == 5 && EMBC_ARRAY_SIZE(a7) - 8 < 0 && EMBC_ARRAY_SIZE(*aa) == 5, "ARRAY_SIZE");
    mc_check(embc_sizeof(a7) == 28 && embc_sizeof(struct cont_s) == (embc_size_t) sizeof(struct cont_s) && embc_sizeof(a1) - 2 < 0, "sizeof is not signed");
    memset(guard, fillv, sizeof(guard)); memset(s, fillv, sizeof(s)); memset(&guard[i], 0, sizeof(guard[i]));
    EMBC_STRUCT_INIT(s[i]); mc_check(0 == memcmp(s, guard, sizeof(s)), "STRUCT_INIT");
    memset(s, fillv, sizeof(s)); EMBC_STRUCT_PTR_INIT(&s[i]); mc_check(0 == memcmp(s, guard, sizeof(s)), "STRUCT_PTR_INIT");
    struct cont_s * ps = s + i; memset(s, fillv, sizeof(s)); EMBC_STRUCT_PTR_INIT(ps); mc_check(0 == memcmp(s, guard, sizeof(s)), "STRUCT_PTR_INIT");
    uint8_t src[24], dst[24], e[24];
    for (int k = 0; k < 24; ++k) { src[k] = (uint8_t) (k * 7 + 1); e[k] = dst[k] = (uint8_t) fillv; }
    embc_memcpy(dst + off, src + i, n); for (int k = 0; k < n; ++k) { e[off + k] = src[i + k]; } mc_check(0 == memcmp(dst, e, 24), "memcpy of %d", n);
    embc_memset(dst + off, 0x1fe - i, n); for (int k = 0; k < n; ++k) { e[off + k] = (uint8_t) (0xfe - i); } mc_check(0 == memcmp(dst, e, 24), "memset of %d", n);
}
static const struct mc_scenario c34[] = {
    {"structures", struct_run, 0, 0, 0, 0}, {"rounding", round_run, 0, 0, 0, 0}, {"ranges", range_run, 0, 0, 0, 0}, {"low bits", bits_low_run, 0, 0, 0, 0}, {"all bits", bits_all_run, 0, 0, 0, 0}, {0}
};

/* ------------------------------------------------------------ C35 */
static char logged[2][400]; static int nlog, which, nargs_eval;
static void handler_any(int k, const char * fmt, va_list ap) { ++nlog; which = k; vsnprintf(logged[k], sizeof(logged[k]), fmt, ap); }
static void handler0(const char * fmt, ...) { va_list ap; va_start(ap, fmt); handler_any(0, fmt, ap); va_end(ap); }
static void handler1(const char * fmt, ...) { va_list ap; va_start(ap, fmt); handler_any(1, fmt, ap); va_end(ap); }
static int ev(int x) { ++nargs_eval; return x; }
static void expect_log(int emitted, int level, int line, const char * msg, int evals) {
    static const char codes[] = "!ACEWNIDDD.";
    char want[400];
    snprintf(want, sizeof(want), "%c %s:%d: %s\n", codes[level < 0 || level > 10 ? 10 : level], "harness", line, msg);
    mc_check(nlog == (emitted ? 1 : 0), "level %d with module level %d, global level %d: logged %d times", level, cfg_level, cfg_global, nlog);
    if (emitted) { mc_check(0 == strcmp(logged[which], want), "logged \"%s\", expected \"%s\"", logged[which], want); }
    mc_check(nargs_eval == (emitted ? evals : 0), "arguments evaluated %d times, expected %d", nargs_eval, emitted ? evals : 0);
    nlog = nargs_eval = 0;
}
#define BOTH(MACRO, L) do { int e_ = L <= cfg_level && L <= cfg_global; \
    MACRO("plain 100%d"); expect_log(e_, L, __LINE__, "plain 100%d", 0); \
    MACRO("%d-%s", ev(42), "x"); expect_log(e_, L, __LINE__, "42-x", 1); \
    if (e_) MACRO("%c", 'q'); expect_log(e_, L, __LINE__, "q", 0); \
    MACRO("%d%d%d%d%d%d%d%d%d%d", ev(0), ev(1), ev(2), ev(3), ev(4), ev(5), ev(6), ev(7), ev(8), ev(9)); expect_log(e_, L, __LINE__, "0123456789", 10); } while (0)
static void log_levels_run(void) {
    cfg_level = mc_choose(12) - 1; cfg_global = mc_choose(12) - 1;
    mc_op("module level %d, global level %d", cfg_level, cfg_global);
    embc_log_initialize(handler0);
    BOTH(EMBC_LOG_EMERGENCY, 0); BOTH(EMBC_LOG_ALERT, 1); BOTH(EMBC_LOG_CRITICAL, 2); BOTH(EMBC_LOG_ERROR, 3); BOTH(EMBC_LOG_ERR, 3); BOTH(EMBC_LOG_WARNING, 4); BOTH(EMBC_LOG_WARN, 4);
    BOTH(EMBC_LOG_NOTICE, 5); BOTH(EMBC_LOG_INFO, 6); BOTH(EMBC_LOG_DEBUG1, 7); BOTH(EMBC_LOG_DEBUG, 7); BOTH(EMBC_LOG_DBG, 7); BOTH(EMBC_LOG_DEBUG2, 8); BOTH(EMBC_LOG_DEBUG3, 9);
    BOTH(EMBC_LOGE, 3); BOTH(EMBC_LOGW, 4); BOTH(EMBC_LOGN, 5); BOTH(EMBC_LOGI, 6); BOTH(EMBC_LOGD, 7); BOTH(EMBC_LOGD1, 7); BOTH(EMBC_LOGD2, 8); BOTH(EMBC_LOGD3, 9);
    for (int l = -3; l <= 14; ++l) {
        int e = l >= 0 && l <= cfg_level && l <= cfg_global;
        EMBC_LOG(l, "n %d", ev(7)); expect_log(e, l, __LINE__, "n 7", 1);
        EMBC_LOG(l ? l : 0, "n %d", ev(7)); expect_log(e, l, __LINE__, "n 7", 1);
        mc_check(!!EMBC_LOG_CHECK_STATIC(l) == e, "CHECK_STATIC(%d)", l);
        for (int c = -2; c < 12; ++c) { mc_check(!!EMBC_LOG_LEVEL_CHECK(l, c) == (l <= c) && !!EMBC_LOG_LEVEL_CHECK(c ? l : l, l ? c : c) == (l <= c), "LEVEL_CHECK(%d, %d)", l, c); }
    }
    mc_state(mc_mix(cfg_level, cfg_global));
}
static void log_handlers_run(void) {    /* registration sequences */
    int cur = -1;
    for (int i = 0; i < mc_tier(5, 7); ++i) {
        switch (mc_choose(4)) {
            case 0: mc_op("initialize handler 0"); mc_check(embc_log_initialize(handler0) == 0, "initialize"); cur = 0; break;
            case 1: mc_op("initialize handler 1"); mc_check(embc_log_initialize(handler1) == 0, "initialize"); cur = 1; break;
            case 2: mc_op("initialize(0)"); mc_check(embc_log_initialize(0) == 0, "initialize"); cur = -1; break;
            case 3: mc_op("finalize"); embc_log_finalize(); cur = -1; break;
        }
        EMBC_LOG_ERROR("to %d", cur);
        mc_check(nlog == (cur >= 0), "logged %d times", nlog);
        if (cur >= 0) { mc_check(which == cur, "the wrong handler was called"); }
        nlog = 0; mc_state(cur + 1);
    }
}
static void log_tables_run(void) {
    static const char * const names[] = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARN", "NOTICE", "INFO", "DEBUG", "DEBUG2", "DEBUG3", "ALL"};
    mc_op("tables");
    for (int i = 0; i < 11; ++i) {
        mc_check(embc_log_level_str[i] != 0, "level %d has no name", i);
        mc_check(0 == strncmp(embc_log_level_str[i], names[i], strlen(names[i])) && strlen(embc_log_level_str[i]) <= 9, "level %d is named %s, expected %s", i, embc_log_level_str[i], names[i]);
        for (int j = 0; j < i; ++j) { mc_check(strcmp(embc_log_level_str[i], embc_log_level_str[j]) != 0, "levels %d and %d share a name", i, j); }
        mc_check(embc_log_level_char[i] == "!ACEWNIDDD."[i], "level %d has code %c", i, embc_log_level_char[i]);
    }
    mc_check(EMBC_LOG_LEVEL_OFF == -1 && EMBC_LOG_LEVEL_EMERGENCY == 0 && EMBC_LOG_LEVEL_ALERT == 1 && EMBC_LOG_LEVEL_CRITICAL == 2 && EMBC_LOG_LEVEL_ERROR == 3 && EMBC_LOG_LEVEL_WARNING == 4 && EMBC_LOG_LEVEL_NOTICE == 5
        && EMBC_LOG_LEVEL_INFO == 6 && EMBC_LOG_LEVEL_DEBUG == 7 && EMBC_LOG_LEVEL_DEBUG1 == 7 && EMBC_LOG_LEVEL_DEBUG2 == 8 && EMBC_LOG_LEVEL_DEBUG3 == 9 && EMBC_LOG_LEVEL_ALL == 10, "level order");
    mc_check(DEFAULT_LEVEL == EMBC_LOG_LEVEL_INFO && DEFAULT_GLOBAL == EMBC_LOG_LEVEL_ALL, "default levels");
    EMBC_LOG_ERROR("before any handler %d", 1);    /* must be harmless */
    embc_log_printf_("%d", 1);
    mc_check(nlog == 0, "logged without a handler");
}
static const struct mc_scenario c35[] = {{"tables", log_tables_run, 0, 0, 0, 0}, {"levels", log_levels_run, 0, 0, 0, 0}, {"handlers", log_handlers_run, 0, 0, 0, 0}, {0}};

/* ------------------------------------------------------------ C36 */
static const struct { const char * name, * keyword; } codes[] = {
    {"SUCCESS", "uccess"}, {"UNSPECIFIED", "nspecified"}, {"NOT_ENOUGH_MEMORY", "memory"}, {"NOT_SUPPORTED", "support"}, {"IO", "utput"}, {"PARAMETER_INVALID", "parameter"}, {"INVALID_RETURN_CONDITION", "return condition"},
    {"INVALID_CONTEXT", "context"}, {"INVALID_MESSAGE_LENGTH", "length"}, {"MESSAGE_INTEGRITY", "integrity"}, {"SYNTAX_ERROR", "yntax"}, {"TIMED_OUT", "time"}, {"FULL", "full"}, {"EMPTY", "empty"}, {"TOO_SMALL", "small"},
    {"TOO_BIG", "big"}, {"NOT_FOUND", "not found"}, {"ALREADY_EXISTS", "exists"}, {"PERMISSIONS", "ermission"}, {"BUSY", "busy"}, {"UNAVAILABLE", "unavailable"}, {"IN_USE", "in use"}, {"CLOSED", "closed"}, {"SEQUENCE", "sequence"},
    {"ABORTED", "aborted"}, {"SYNCHRONIZATION", "synchroni"}
};
#define NCODES 26
#define TEXT_OF(NAME, TEXT) case EMBC_ERROR_ ## NAME: return TEXT;
#define NAME_OF(NAME, TEXT) case EMBC_ERROR_ ## NAME: return #NAME;
static const char * text_of(int c) { switch (c) { EMBC_ERROR_CODES(TEXT_OF) default: return 0; } }
static const char * name_of(int c) { switch (c) { EMBC_ERROR_CODES(NAME_OF) default: return 0; } }
static void ec_one(int64_t v) {
    int c = (int) v;
    const char * n = embc_error_code_name(c), * d = embc_error_code_description(c);
    if (!n || !d) { mc_fail("code %d has a null text", c); }
    if (c >= 0 && c < EMBC_ERROR_CODE_COUNT) {
        mc_check(0 == strcmp(n, name_of(c)), "code %d is named %s, expected %s", c, n, name_of(c));
        mc_check(0 == strcmp(d, text_of(c)), "code %d is described as %s, expected %s", c, d, text_of(c));
        if (c < NCODES) {
            mc_check(0 == strcmp(n, codes[c].name), "code %d is named %s, expected %s", c, n, codes[c].name);
            mc_check(strstr(d, codes[c].keyword) != 0, "code %d (%s) is described as %s", c, n, d);
        }
        for (int k = 0; k < c; ++k) { mc_check(strcmp(embc_error_code_name(k), n) && strcmp(embc_error_code_description(k), d), "codes %d and %d share a text", k, c); }
    } else if (strcmp(n, "UNKNOWN") || strcmp(d, "Unknown error")) { mc_fail("code %d is %s (%s)", c, n, d); }
}
static void ec_run(void) {
    int blk = mc_choose(256);
    mc_op("codes %d..", blk * 512 - 65536);
    mc_check(EMBC_ERROR_CODE_COUNT >= NCODES && EMBC_SUCCESS == 0 && EMBC_ERROR_PARAMETER_INVALID == 5 && EMBC_ARGCHK_FAIL_RETURN_CODE_DEFAULT == 5, "the published numbers changed");
    for (int i = 0; i < 512; ++i) { ec_one(blk * 512 + i - 65536); }
    for (int b = 0; b < 32; ++b) { ec_one((int64_t) (1u << b) + blk); ec_one((int64_t) (1u << b) - blk); ec_one(-(int64_t) (1u << b) + blk); }
    if (mc_thorough) { for (int64_t v = 0; v < 1 << 24; ++v) { ec_one((int64_t) ((uint32_t) blk << 24 | (uint32_t) v)); if (!(v & 0xffff)) { mc_tick(); } } mc_count(1 << 24); }
    mc_count(512 + 96); mc_state(blk);
}
static const struct mc_scenario c36[] = {{"codes", ec_run, 0, 0, 0, 0}, {0}};

/* ------------------------------------------------------------ C37 */
static int evals;
static int E(int x) { ++evals; return x; }
static void fatal_expect(int fatal, int want, int line, const char * what) {
    mc_check(fatal == want, "%s %s", what, fatal ? "raised a fatal error although it is satisfied" : "did not raise a fatal error");
    mc_check(mc_faults == (want ? 1 : 0), "%s raised %d fatal errors", what, mc_faults);
    if (want) { char f[32]; snprintf(f, sizeof(f), ":%d:", line); mc_check(strstr(mc_fatal_msg, f) != 0 && strstr(mc_fatal_msg, "harness") != 0, "%s reported the wrong place: %s", what, mc_fatal_msg); }
    mc_check(evals == 0, "unexpected evaluation"); mc_faults = 0;
}
#define DBC1(STMT, OK) do { int f_ = MC_FATAL(STMT); fatal_expect(f_, !(OK), __LINE__, #STMT); } while (0)
#define DBCE(STMT, OK, N) do { int f_ = MC_FATAL(STMT); mc_check(evals == (N), #STMT " evaluated its argument %d times", evals); evals = 0; fatal_expect(f_, !(OK), __LINE__, #STMT); } while (0)
static const int ivals[] = {0, 1, -1, 2, -2, 5, 100, -100, 127, 128, -128, 255, 256, 65535, 65536, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1};
#define NIV ((int) (sizeof(ivals) / sizeof(ivals[0])))
static void dbc_int_run(void) {
    int a = ivals[mc_choose(NIV)], b = ivals[mc_choose(NIV)];
    mc_op("contracts on %d, %d", a, b);
    DBCE(EMBC_DBC_TRUE(E(a)), a, 1); DBCE(EMBC_DBC_FALSE(E(a)), !a, 1); DBCE(EMBC_DBC_NOT_NULL(E(a)), a, 1); DBCE(EMBC_DBC_REQUIRE(E(a)), a, 1);
    DBCE(EMBC_DBC_GT_ZERO(E(a)), a > 0, 1); DBCE(EMBC_DBC_GTE_ZERO(E(a)), a >= 0, 1); DBCE(EMBC_DBC_NE_ZERO(E(a)), a != 0, 1); DBCE(EMBC_DBC_LT_ZERO(E(a)), a < 0, 1); DBCE(EMBC_DBC_LTE_ZERO(E(a)), a <= 0, 1);
    DBCE(EMBC_DBC_EQUAL(E(a), E(b)), a == b, 2); DBCE(EMBC_DBC_NE(E(a), E(b)), a != b, 2); DBCE(EMBC_DBC_GT(E(a), E(b)), a > b, 2); DBCE(EMBC_DBC_GTE(E(a), E(b)), a >= b, 2);
    DBCE(EMBC_DBC_LT(E(a), E(b)), a < b, 2); DBCE(EMBC_DBC_LTE(E(a), E(b)), a <= b, 2); DBCE(EMBC_DBC_ASSERT(E(a) == b, "m"), a == b, 1);
    DBC1(EMBC_DBC_EQUAL(a & 1, b & 1), (a & 1) == (b & 1)); DBC1(EMBC_DBC_GT(a ? 1 : 2, b ? 1 : 2), (a ? 1 : 2) > (b ? 1 : 2)); DBC1(EMBC_DBC_FALSE(a == b), a != b); DBC1(EMBC_DBC_TRUE(a == b || a == 5), a == b || a == 5); DBC1(EMBC_DBC_FALSE(a & 2), !(a & 2));
    DBCE(EMBC_ASSERT(E(a)), a, 1); DBC1(EMBC_ASSERT(a == b), a == b); DBC1(EMBC_ASSERT(a || b), a || b);
    DBC1(EMBC_FATAL("x"), 0);
    for (int i = 0; i < NIV; ++i) {
        int c = ivals[i];
        DBCE(EMBC_DBC_RANGE_INT(E(a), E(b), E(c)), a >= b && a <= c, 3);
    }
    int64_t la = (int64_t) a << 31, lb = (int64_t) b << 31; unsigned ua = (unsigned) a; double da = a / 3.0;
    DBC1(EMBC_DBC_GT(la, lb), la > lb); DBC1(EMBC_DBC_LTE(la, lb), la <= lb); DBC1(EMBC_DBC_GT_ZERO(la), a > 0); DBC1(EMBC_DBC_TRUE(la), a); DBC1(EMBC_DBC_NE_ZERO(la), a); DBC1(EMBC_DBC_GT_ZERO(ua), a != 0); DBC1(EMBC_DBC_LT_ZERO(da), a < 0); DBC1(EMBC_DBC_GT_ZERO(da), a > 0);
    mc_count(60);
}
static void dbc_pointer_run(void) {
    static int obj; int * p = mc_choose(2) ? &obj : 0; void * q = p;
    mc_op("contracts on %s pointer", p ? "a" : "the null");
    DBC1(EMBC_DBC_NOT_NULL(p), p); DBC1(EMBC_DBC_NOT_NULL(q), p); DBC1(EMBC_DBC_TRUE(p), p); DBC1(EMBC_DBC_FALSE(p), !p); DBC1(EMBC_DBC_EQUAL(p, &obj), p); DBC1(EMBC_DBC_NE(p, &obj), !p); DBC1(EMBC_DBC_REQUIRE(p), p);
    DBC1(EMBC_ASSERT_ALLOC(p), p); DBC1(EMBC_ASSERT(p), p); DBC1(EMBC_DBC_NOT_NULL(p ? p : 0), p); DBC1(EMBC_ASSERT_ALLOC(p ? p : 0), p);
    mc_check(obj == 0, "an effect on the object");
}
#define CHK(NAME, ...) static int NAME(int a, int b, int c) { (void) b; (void) c; __VA_ARGS__; return 77; }
CHK(ck_true, EMBC_ARGCHK_TRUE(E(a))) CHK(ck_false, EMBC_ARGCHK_FALSE(E(a))) CHK(ck_nn, EMBC_ARGCHK_NOT_NULL(E(a))) CHK(ck_gtz, EMBC_ARGCHK_GT_ZERO(E(a))) CHK(ck_gtez, EMBC_ARGCHK_GTE_ZERO(E(a))) CHK(ck_nez, EMBC_ARGCHK_NE_ZERO(E(a)))
CHK(ck_ltz, EMBC_ARGCHK_LT_ZERO(E(a))) CHK(ck_ltez, EMBC_ARGCHK_LTE_ZERO(E(a))) CHK(ck_req, EMBC_ARGCHK_REQUIRE(E(a))) CHK(ck_ass, EMBC_ARGCHK_ASSERT(E(a), "text")) CHK(ck_rng, EMBC_ARGCHK_RANGE_INT(E(a), E(b), E(c)))
CHK(ck_expr, EMBC_ARGCHK_FALSE(a == b)) CHK(ck_expr2, EMBC_ARGCHK_GT_ZERO(a & 1)) CHK(ck_expr3, EMBC_ARGCHK_NE_ZERO(a ? b : c)) CHK(ck_if, if (b) EMBC_ARGCHK_TRUE(a); else E(0)) CHK(ck_long, EMBC_ARGCHK_GT_ZERO((int64_t) a << 31)) CHK(ck_ptr, EMBC_ARGCHK_NOT_NULL(a ? &evals : (int *) 0))
#undef EMBC_ARGCHK_FAIL_RETURN_CODE
#define EMBC_ARGCHK_FAIL_RETURN_CODE (-12)
CHK(ck2_true, EMBC_ARGCHK_TRUE(E(a))) CHK(ck2_rng, EMBC_ARGCHK_RANGE_INT(E(a), E(b), E(c)))
static void chk(int rc, int ok, int code, int ev_, const char * what) {
    mc_check(rc == (ok ? 77 : code), "%s returned %d, expected %d", what, rc, ok ? 77 : code);
    mc_check(evals == ev_, "%s evaluated its arguments %d times", what, evals); evals = 0;
    mc_check(mc_faults == 0, "%s raised a fatal error", what);
    mc_check(nlog <= 1 && (ok ? nlog == 0 : 1), "%s logged %d times", what, nlog); nlog = 0;
}
static void argchk_run(void) {
    int a = ivals[mc_choose(NIV)], b = ivals[mc_choose(NIV)];
    mc_op("argument checks on %d, %d", a, b);
    embc_log_initialize(handler0);
    chk(ck_true(a, b, 0), a, 5, 1, "TRUE"); chk(ck_false(a, b, 0), !a, 5, 1, "FALSE"); chk(ck_nn(a, b, 0), a, 5, 1, "NOT_NULL"); chk(ck_gtz(a, b, 0), a > 0, 5, 1, "GT_ZERO"); chk(ck_gtez(a, b, 0), a >= 0, 5, 1, "GTE_ZERO");
    chk(ck_nez(a, b, 0), a != 0, 5, 1, "NE_ZERO"); chk(ck_ltz(a, b, 0), a < 0, 5, 1, "LT_ZERO"); chk(ck_ltez(a, b, 0), a <= 0, 5, 1, "LTE_ZERO"); chk(ck_req(a, b, 0), a, 5, 1, "REQUIRE"); chk(ck_ass(a, b, 0), a, 5, 1, "ASSERT");
    chk(ck_expr(a, b, 0), a != b, 5, 0, "FALSE of an expression"); chk(ck_expr2(a, b, 0), a & 1, 5, 0, "GT_ZERO of an expression"); chk(ck_expr3(a, b, 3), a ? b : 3, 5, 0, "NE_ZERO of an expression");
    chk(ck_if(a, b, 0), b ? a : 1, 5, b ? 0 : 1, "TRUE under if"); chk(ck_long(a, b, 0), a > 0, 5, 0, "GT_ZERO of 64 bits"); chk(ck_ptr(a, b, 0), a, 5, 0, "NOT_NULL of a pointer");
    chk(ck2_true(a, b, 0), a, -12, 1, "TRUE with another code");
    for (int i = 0; i < NIV; ++i) { chk(ck_rng(a, b, ivals[i]), a >= b && a <= ivals[i], 5, 3, "RANGE_INT"); chk(ck2_rng(a, b, ivals[i]), a >= b && a <= ivals[i], -12, 3, "RANGE_INT with another code"); }
    mc_count(60);
}
static int roe(int x) { EMBC_RETURN_ON_ERROR(E(x)); return 77; }
static int eoe(int x) { int rv = 77; EMBC_EXIT_ON_ERROR(E(x)); rv = 78; exit: return rv; }
static int ewe(int x) { int rv = 77; EMBC_EXIT_WITH_ERROR(rv, E(x)); rv = 78; exit: return rv; }
static int32_t roem(int x) { EMBC_RETURN_ON_ERROR_MSG(E(x), "why"); return 77; }
static int roe_if(int c, int x) { if (c) EMBC_RETURN_ON_ERROR(E(x)); else E(0); return 77; }
static void on_error_run(void) {
    int x = ivals[mc_choose(NIV)], c = mc_choose(2);
    mc_op("error propagation of %d", x);
    embc_log_initialize(handler0);
#define ONCE(EXPR, WANT) do { int r_ = EXPR; mc_check(r_ == (WANT), #EXPR " of %d gave %d", x, r_); mc_check(evals == 1, "evaluated %d times", evals); evals = 0; } while (0)
    ONCE(roe(x), x ? x : 77); ONCE(eoe(x), x ? 77 : 78); ONCE(ewe(x), x ? x : 78); ONCE(roe_if(c, x), c && x ? x : 77);
    mc_check(nlog == 0, "logged"); ONCE(roem(x), x ? x : 77); mc_check(nlog == (x ? 1 : 0), "logged %d times", nlog);
}
/* the platform allocator */
static int n_alloc[2], n_free[2]; static embc_size_t asked; static void * given; static void * freed; static int exhausted;
static uint8_t arena[2][256];
static void * alloc_k(int k, embc_size_t n) { ++n_alloc[k]; asked = n; return given = exhausted ? 0 : memset(arena[k], 0xa5, 256); }
static void * alloc0(embc_size_t n) { return alloc_k(0, n); }
static void * alloc1(embc_size_t n) { return alloc_k(1, n); }
static void free0(void * p) { ++n_free[0]; freed = p; }
static void free1(void * p) { ++n_free[1]; freed = p; }
static void alloc_run(void) {
    int a = -1, f = -1;
    for (int i = 0; i < mc_tier(4, 5); ++i) {
        int op = mc_choose(6);
        int na[2] = {n_alloc[0], n_alloc[1]}, nf[2] = {n_free[0], n_free[1]};
        mc_faults = 0;
        if (op == 0) {
            int k = mc_choose(9); a = k % 3 - 1; f = k / 3 - 1;
            mc_op("allocator_set(%d, %d)", a, f);
            embc_allocator_set(a < 0 ? 0 : a ? alloc1 : alloc0, f < 0 ? 0 : f ? free1 : free0);
        } else if (op <= 3) {
            static const embc_size_t sizes[] = {0, 1, 24, 200};
            embc_size_t n = sizes[mc_choose(4)]; exhausted = mc_choose(2); void * volatile p = (void *) 1;
            mc_op("%s(%d)%s", op == 1 ? "alloc" : op == 2 ? "alloc_clr" : "lib_alloc", (int) n, exhausted ? " when exhausted" : "");
            int fatal = op == 1 ? MC_FATAL(p = embc_alloc(n)) : op == 2 ? MC_FATAL(p = embc_alloc_clr(n)) : MC_FATAL(p = embc_lib_alloc(n));
            mc_check(fatal == (a < 0 || exhausted), "fatal %d with allocator %d%s", fatal, a, exhausted ? ", exhausted" : "");
            mc_check(mc_faults == fatal, "%d fatal errors", mc_faults);
            for (int k = 0; k < 2; ++k) { mc_check(n_alloc[k] == na[k] + (a == k), "allocator %d called %d times", k, n_alloc[k] - na[k]); }
            if (!fatal) {
                mc_check(p == given && asked == n, "asked for %d, returned another block", (int) asked);
                if (op > 1) { for (int k = 0; k < 256; ++k) { mc_check(arena[a][k] == (k < n ? 0 : 0xa5), "byte %d of a cleared block of %d is 0x%02x", k, (int) n, arena[a][k]); } }
            }
        } else {
            int null = mc_choose(2); void * p = null ? 0 : arena[0] + 8; freed = (void *) 1;
            mc_op("%s(%s)", op == 4 ? "free" : "lib_free", null ? "0" : "block");
            int fatal = op == 4 ? MC_FATAL(embc_free(p)) : MC_FATAL(embc_lib_free(p));
            int quiet = op == 5 && null;
            mc_check(fatal == (!quiet && (f < 0 || null)), "fatal %d freeing %s with function %d", fatal, null ? "null" : "a block", f);
            for (int k = 0; k < 2; ++k) { mc_check(n_free[k] == nf[k] + (!quiet && !fatal && f == k), "free function %d called %d times", k, n_free[k] - nf[k]); }
            if (!fatal && !quiet) { mc_check(freed == p, "another block was freed"); }
        }
        mc_state(mc_mix(a + 1, f + 1));
    }
}
/* the shared library support */
void embc_lib_fatal_impl(char const * file, int line, char const * msg);
static int nfat, nprint, lastline; static void * fat_ud, * print_ud; static char fat_file[32], fat_msg[32], printed[9000];
static void on_fatal(void * ud, char const * file, int line, char const * msg) { ++nfat; fat_ud = ud; lastline = line; snprintf(fat_file, sizeof(fat_file), "%s", file); snprintf(fat_msg, sizeof(fat_msg), "%s", msg); }
static void on_print(void * ud, char const * s) { ++nprint; print_ud = ud; snprintf(printed, sizeof(printed), "%s", s); }
static void lib_run(void) {
    static int ud[3]; int fat = -1, prt = -1;
    embc_lib_print_set(on_print, &ud[0]); prt = 0;       /* keep standard output clean */
    for (int i = 0; i < mc_tier(4, 6); ++i) {
        nfat = nprint = 0;
        switch (mc_choose(6)) {
            case 0: fat = mc_choose(3); mc_op("fatal_set %d", fat); embc_lib_fatal_set(on_fatal, fat < 2 ? &ud[fat] : 0); break;
            case 1: mc_op("fatal_set 0"); embc_lib_fatal_set(0, 0); fat = -1; break;
            case 2: prt = mc_choose(3); mc_op("print_set %d", prt); embc_lib_print_set(on_print, prt < 2 ? &ud[prt] : 0); break;
            case 3: mc_op("fatal");
                embc_lib_fatal_impl("f.c", 12 + i, "boom");
                if (fat >= 0) { mc_check(nfat == 1 && nprint == 0 && fat_ud == (fat < 2 ? &ud[fat] : 0) && lastline == 12 + i && !strcmp(fat_file, "f.c") && !strcmp(fat_msg, "boom"), "the fatal handler was not called as registered"); }
                else { mc_check(nfat == 0 && nprint == 1 && strstr(printed, "f.c") && strstr(printed, "boom"), "the fatal error was not printed: %s", printed); }
                break;
            case 4: mc_op("log");
                EMBC_LOG_ERROR("v %d", i); { char w[64]; snprintf(w, sizeof(w), "E harness:%d: v %d\n", __LINE__, i); mc_check(nprint == 1 && print_ud == (prt < 2 ? &ud[prt] : 0) && !strcmp(printed, w), "printed \"%s\", expected \"%s\"", printed, w); }
                break;
            case 5: { mc_op("initialize"); embc_lib_initialize(); uint8_t * p = embc_lib_alloc(33); int z = 0; for (int k = 0; k < 33; ++k) { z |= p[k]; } mc_check(p && !z, "lib_alloc"); embc_lib_free(p); embc_lib_free(0); break; }
        }
        mc_state(mc_mix(fat + 1, prt + 1));
    }
    mc_check(mc_outstanding() == 0, "%ld blocks leaked", mc_outstanding());
}
static void lib_long_run(void) {        /* long log lines are cut, never overrun */
    static char big[9000]; static const int lens[] = {10, 8000, 8170, 8190, 8191, 8192, 8193, 8200, 8900};
    int n = lens[mc_choose(9)]; static int u;
    mc_op("a line of %d characters", n);
    memset(big, 'k', n); big[n] = 0;
    embc_lib_print_set(on_print, &u);
    embc_log_printf_("%s", big);
    int len = (int) strlen(printed);
    mc_check(nprint == 1 && len == (n > 8191 ? 8191 : n) && !strncmp(printed, big, len), "printed %d of %d characters", len, n);
}
static const struct mc_scenario c37[] = {
    {"pointer contracts", dbc_pointer_run, 0, 0, 0, 0}, {"integer contracts", dbc_int_run, 0, 0, 0, 0}, {"argument checks", argchk_run, 0, 0, 0, 0}, {"error propagation", on_error_run, 0, 0, 0, 0},
    {"allocator", alloc_run, 0, 0, 0, 0}, {"library", lib_run, 0, 0, 0, 0}, {"long lines", lib_long_run, 0, 0, 0, 0}, {0}
};

const struct mc_property mc_properties[] = {
    {"C32", c32},
    {"C33", c33},
    {"C34", c34},
    {"C35", c35},
    {"C36", c36},
    {"C37", c37},
    {0}
};
