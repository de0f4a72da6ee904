/* C28: CRC.  C29: LFSR.  C30/C31: 32-bit test pattern. */
#include "two.h"
#include "embc/crc.h"
#include "embc/lfsr.h"
#include "embc/pattern_32a.h"
#include <string.h>
#include <stdlib.h>

/* ------------------------------------------------------------ C28 */
/* reference: polynomial long division, bit by bit */
static uint32_t rev(uint32_t v, int n) { uint32_t r = 0; for (int i = 0; i < n; ++i) { r |= ((v >> i) & 1u) << (n - 1 - i); } return r; }
static uint32_t ref_crc(int width, uint32_t poly, int reflected, uint32_t prev, const uint8_t * p, int n) {
    uint32_t top = 1u << (width - 1), mask = width == 32 ? 0xffffffffu : (1u << width) - 1;
    if (!n) { return prev; }
    uint32_t r = ~prev & mask;
    if (reflected) { r = rev(r, width); }
    for (int i = 0; i < n; ++i) {
        uint8_t b = reflected ? (uint8_t) rev(p[i], 8) : p[i];
        for (int k = 7; k >= 0; --k) {
            uint32_t bit = (b >> k) & 1;
            uint32_t out = ((r & top) ? 1u : 0u) ^ bit;
            r = (r << 1) & mask;
            if (out) { r ^= poly; }
        }
    }
    if (reflected) { r = rev(r, width); }
    return ~r & mask;
}
static uint32_t ref(int k, uint32_t prev, const uint8_t * p, int n) {
    return k == 0 ? ref_crc(8, 0x07, 1, prev, p, n) : k == 1 ? ref_crc(16, 0x1021, 0, prev, p, n) : ref_crc(32, 0x04C11DB7, 1, prev, p, n);
}
static uint32_t real(int k, uint32_t prev, const uint8_t * p, int n) {
    return k == 0 ? embc_crc_ccitt_8((uint8_t) prev, p, n) : k == 1 ? embc_crc_ccitt_16((uint16_t) prev, p, n) : embc_crc32(prev, p, n);
}
static const char * const crc_name[] = {"crc_ccitt_8", "crc_ccitt_16", "crc32"};
static void crc_one(int k, uint32_t prev, const uint8_t * p, int n) {
    uint32_t a = real(k, prev, p, n), b = ref(k, prev, p, n);
    mc_check(a == b, "%s of %d bytes [%02x %02x %02x..] after 0x%x is 0x%x, expected 0x%x", crc_name[k], n, n > 0 ? p[0] : 0, n > 1 ? p[1] : 0, n > 2 ? p[2] : 0, prev, a, b);
}
static void crc_short_run(void) {       /* every byte string up to length 2 (3) */
    int k = mc_choose(3), x = mc_choose(256), len = mc_tier(2, 3);
    mc_op("%s, all strings starting with 0x%02x", crc_name[k], x);
    uint8_t * p = malloc(1);
    p[0] = (uint8_t) x; crc_one(k, 0, p, 1); free(p);
    p = malloc(2); p[0] = (uint8_t) x;
    uint8_t * q = malloc(3); q[0] = (uint8_t) x;
    for (int y = 0; y < 256; ++y) {
        p[1] = (uint8_t) y; crc_one(k, 0, p, 2);
        if (len == 3) { q[1] = (uint8_t) y; for (int z = 0; z < 256; ++z) { q[2] = (uint8_t) z; crc_one(k, 0, q, 3); } mc_count(256); mc_tick(); }
    }
    mc_count(256);
    free(p); free(q);
}
static void crc_prev_run(void) {        /* every previous value (16 bit) or single bits, one byte each */
    int k = mc_choose(3), x = mc_choose(256);
    mc_op("%s, continuing from many values with 0x%02x", crc_name[k], x);
    uint8_t b[2] = {(uint8_t) x, (uint8_t) (x * 7 + 1)};
    int n = k == 0 ? 256 : 65536, step = k == 0 || mc_thorough ? 1 : 17;
    for (int v = 0; v < n; v += step) { crc_one(k, k == 2 ? (uint32_t) v * 65537u : (uint32_t) v, b, 2); mc_tick(); }
    mc_count(n / step);
    for (int s = 0; s < 32; ++s) { if (k == 2) { crc_one(k, 1u << s, b, 2); crc_one(k, ~(1u << s), b, 2); } }
    crc_one(k, (uint32_t) x, b, 0);
    mc_check(real(k, (uint32_t) x, 0, 0) == (uint32_t) x && real(k, 0, 0, 0) == 0, "empty data changes the value");
}
static uint8_t pattern(int kind, int i) { return (uint8_t) (kind == 0 ? i : kind == 1 ? 0 : kind == 2 ? 0xff : kind == 3 ? i * 37 + 11 : (i & 1) ? 0xaa : 0x55); }
static void crc_length_run(void) {      /* every length, every split */
    int k = mc_choose(3), kind = mc_choose(5), n = mc_choose(mc_tier(300, 1030));
    mc_op("%s of %d bytes, every split", crc_name[k], n);
    uint8_t * p = malloc(n), * c = malloc(n);
    for (int i = 0; i < n; ++i) { p[i] = pattern(kind, i); }
    memcpy(c, p, n);
    uint32_t want = ref(k, 0, p, n), got = real(k, 0, p, n);
    mc_check(want == got, "%s of %d bytes of pattern %d is 0x%x, expected 0x%x", crc_name[k], n, kind, got, want);
    for (int s = 0; s <= n; ++s) {
        uint32_t h = real(k, real(k, 0, p, s), p + s, n - s);
        mc_check(h == want, "%s of %d bytes split at %d is 0x%x, in one call 0x%x", crc_name[k], n, s, h, want);
        mc_tick();
    }
    mc_count(n);
    mc_check(0 == memcmp(p, c, n), "the data was changed");
    free(p); free(c);
}
static void crc_bits_run(void) {        /* single-bit messages at every alignment */
    int k = mc_choose(3), n = 1 + mc_choose(40), align = mc_choose(8), base = mc_choose(2);
    mc_op("%s, single bits in %d bytes", crc_name[k], n);
    uint8_t * m = malloc(n + align), * p = m + align;
    for (int b = 0; b < 8 * n; ++b) {
        memset(p, base ? 0xff : 0, n);
        p[b / 8] ^= (uint8_t) (1u << (b % 8));
        crc_one(k, 0, p, n);
    }
    mc_count(8 * n);
    free(m);
}
static void crc_large_run(void) {       /* lengths around the widths of integers */
    static const int lens[] = {32767, 32768, 65535, 65536, 65537, 70000, 131072, 1 << 20, (1 << 24) + 3};
    int k = mc_choose(3), kind = mc_choose(5), n = lens[mc_choose(mc_tier(8, 9))];
    mc_op("%s of %d bytes", crc_name[k], n);
    uint8_t * p = malloc(n);
    for (int i = 0; i < n; ++i) { p[i] = pattern(kind, i); }
    crc_one(k, 0, p, n);
    uint32_t want = real(k, 0, p, n);
    static const int at[] = {1, 255, 256, 4099};
    for (int s = 0; s < 4; ++s) {
        mc_check(real(k, real(k, 0, p, at[s]), p + at[s], n - at[s]) == want, "%s of %d bytes split at %d", crc_name[k], n, at[s]);
        mc_check(real(k, real(k, 0, p, n - at[s]), p + n - at[s], at[s]) == want, "%s of %d bytes split at %d", crc_name[k], n, n - at[s]);
        mc_tick();
    }
    mc_count(n);
    free(p);
}
static void crc_known_run(void) {
    mc_op("check values");
    const uint8_t * s = (const uint8_t *) "123456789";
    mc_check(embc_crc32(0, s, 9) == 0xCBF43926u, "crc32 check value");
    mc_check(embc_crc_ccitt_16(0, s, 9) == 0xD64E, "crc16 check value 0x%x", embc_crc_ccitt_16(0, s, 9));
}
static const struct mc_scenario c28[] = {
    {"short strings", crc_short_run, 0, 0, 0, 0}, {"previous values", crc_prev_run, 0, 0, 0, 0}, {"lengths and splits", crc_length_run, 0, 0, 0, 0}, {"single bits", crc_bits_run, 0, 0, 0, 0}, {"large", crc_large_run, 0, 0, 0, 0}, {"check values", crc_known_run, 0, 0, 0, 0}, {0}
};

/* ------------------------------------------------------------ C29 */
static uint16_t step(uint16_t s) { /* x16 + x14 + x13 + x11 + 1, new bit enters at the top */
    unsigned b = (s ^ (s >> 2) ^ (s >> 3) ^ (s >> 5)) & 1u;
    return (uint16_t) ((s >> 1) | (b << 15));
}
static uint16_t steps(uint16_t s, int n) { while (n-- > 0) { s = step(s); } return s; }
static void lfsr_cycle_run(void) {
    static MC_KEEP uint8_t seen[65536];
    int s0 = mc_choose(4);
    static const uint16_t seeds[] = {0, 1, LFSR16_INITIAL_VALUE, 0xffff};
    mc_op("full cycle from seed 0x%x", seeds[s0]);
    memset(seen, 0, sizeof(seen));
    struct embc_lfsr_s s;
    embc_lfsr_initialize(&s);
    mc_check(s.value == LFSR16_INITIAL_VALUE && s.error_count == 0, "initialize");
    if (s0 != 2) { embc_lfsr_seed_u16(&s, seeds[s0]); }
    uint16_t first = s.value;
    mc_check(first != 0 && (seeds[s0] == 0 || first == seeds[s0]), "seed 0x%x gives state 0x%x", seeds[s0], first);
    for (int i = 0; i < LFSR16_LENGTH; ++i) {
        mc_check(s.value != 0 && !seen[s.value], "state 0x%x repeats after %d steps", s.value, i);
        seen[s.value] = 1;
        uint16_t e = step(s.value);
        int b = embc_lfsr_next_u1(&s);
        mc_check(s.value == e && b == (e >> 15), "bit after step %d", i);
        mc_tick();
    }
    mc_count(LFSR16_LENGTH);
    mc_check(s.value == first, "the sequence does not close after %d steps", LFSR16_LENGTH);
}
static void lfsr_words_run(void) {      /* byte, half-word and word outputs agree with the bits, from every state */
    int hi = mc_choose(256);
    mc_op("words from states 0x%02x00..", hi);
    for (int lo = 0; lo < 256; ++lo) {
        uint16_t st = (uint16_t) (hi << 8 | lo);
        if (!st) { continue; }
        struct embc_lfsr_s a;
        embc_lfsr_initialize(&a); embc_lfsr_seed_u16(&a, st);
        uint16_t e8 = steps(st, 8), e16 = steps(st, 16), e32 = steps(st, 32);
        mc_check(embc_lfsr_next_u8(&a) == (e8 >> 8) && a.value == e8, "next_u8 from 0x%x", st);
        embc_lfsr_seed_u16(&a, st);
        mc_check(embc_lfsr_next_u16(&a) == e16 && a.value == e16, "next_u16 from 0x%x", st);
        embc_lfsr_seed_u16(&a, st);
        mc_check(embc_lfsr_next_u32(&a) == ((uint32_t) e16 << 16 | e32) && a.value == e32, "next_u32 from 0x%x", st);
        mc_check(a.error_count == 0, "generating counts errors");
        mc_state(st);
    }
    mc_count(255);
}
/* jumping along the sequence of states that bytes are taken from */
static MC_KEEP uint16_t orbit_at[65535]; static MC_KEEP uint16_t orbit_pos[65536]; static MC_KEEP int orbit_ready;
static uint16_t jump(uint16_t st, int64_t values) {
    if (!orbit_ready) { uint16_t x = 1; for (int i = 0; i < 65535; ++i) { orbit_at[i] = x; orbit_pos[x] = (uint16_t) i; x = steps(x, 8); } orbit_ready = 1; }
    values = (orbit_pos[st] + values) % 65535; if (values < 0) { values += 65535; }
    return orbit_at[values];
}
/* the follower's prediction depends on the last two values only */
static struct { int have; uint8_t b[2]; int errors, skip; } F;
static void follow(struct embc_lfsr_s * f, uint8_t d, int i) {
    int want = 0;
    if (F.skip) { return; }
    if (F.have < 2) { F.b[0] = F.b[1]; F.b[1] = d; ++F.have; }
    else {
        uint16_t st = (uint16_t) (F.b[1] << 8 | F.b[0]);
        if (st == 0) { F.skip = 1; return; }    /* two zero values cannot occur in the sequence: no claim from here */
        want = (steps(st, 8) >> 8) != d;
        F.b[0] = F.b[1]; F.b[1] = d;
        if (want) { ++F.errors; F.have = 1; }
    }
    int rc = embc_lfsr_follow_u8(f, d);
    mc_check(rc == -want, "value %d (0x%02x): follow returned %d, expected %d", i, d, rc, -want);
    mc_check(f->error_count == F.errors, "error count %d after %d flagged values", f->error_count, F.errors);
}
static void follower_init(struct embc_lfsr_s * f) { embc_lfsr_initialize(f); F.have = 0; F.errors = 0; F.skip = 0; }
static void lfsr_follow_run(void) {     /* every state; every single-value corruption, drop, repeat and jump */
    int hi = mc_choose(256), kind = mc_arg;
    mc_op("follow from states 0x%02x00.., fault kind %d", hi, kind);
    for (int lo = 0; lo < 256; ++lo) {
        uint16_t st0 = (uint16_t) (hi << 8 | lo);
        if (!st0) { continue; }
        int variants = kind == 0 ? 1 : kind == 1 ? mc_tier(16, 255) : kind == 2 ? mc_tier(8, 64) : 4;
        for (int v = 0; v < variants; ++v) {
            struct embc_lfsr_s f;
            follower_init(&f);
            uint16_t st = st0;
            int bad = -1, n = 16, first_bad = 0;
            for (int i = 0; i < n; ++i) {
                st = steps(st, 8);
                uint8_t d = (uint8_t) (st >> 8);
                if (i == 4) {
                    if (kind == 1) { d ^= (uint8_t) (variants == 255 ? v + 1 : v < 8 ? 1 << v : v * 16 + 15); bad = i; first_bad = 1; }
                    if (kind == 2) { st = jump(st, v + 1); d = (uint8_t) (st >> 8); }            /* values lost */
                    if (kind == 3) { st = jump(st, -(v + 1)); d = (uint8_t) (st >> 8); } /* values repeated */
                }
                if (i == 6 && kind == 3 && (v & 1)) { st = jump(st, 3); d = (uint8_t) (st >> 8); }     /* second slip */
                int before = F.errors;
                follow(&f, d, i);
                if (F.skip) { break; }
                if (i == bad) { mc_check(F.errors == before + first_bad, "a corrupted value was not flagged"); }
                if (kind == 0) { mc_check(F.errors == 0, "an error without a fault"); }
                if (i >= 12) { mc_check(F.errors == before, "still out of step 8 values after the disturbance"); }
            }
            if (F.skip) { continue; }
            mc_check(f.value == st, "the follower is not in step with the generator");
            if (kind == 1) { mc_check(F.errors == 2, "one corrupted value was flagged %d times", F.errors); }
            mc_tick();
        }
        mc_count(variants * 16);
    }
}
static void lfsr_any_run(void) {        /* arbitrary values */
    static const uint8_t vals[] = {0x22, 0x47, 0x37, 0xc4, 0, 0xff, 0x9d};
    struct embc_lfsr_s f;
    follower_init(&f);
    int n = mc_tier(7, 8);
    for (int i = 0; i < n; ++i) { uint8_t d = vals[mc_choose(7)]; mc_op("follow 0x%02x", d); follow(&f, d, i); }
    uint16_t st = LFSR16_INITIAL_VALUE;
    for (int i = 0; i < 12; ++i) { int before = F.errors; st = steps(st, 8); follow(&f, (uint8_t) (st >> 8), i); mc_check(i < 8 || F.errors == before, "does not synchronise"); }
}
static void lfsr_dead_run(void) {       /* the values are all zero for a while, which no generator emits, and then come back */
    int hi = mc_choose(256);
    mc_op("zero values from states 0x%02x00..", hi);
    for (int lo = 0; lo < 256; ++lo) {
        uint16_t st = (uint16_t) (hi << 8 | lo);
        if (!st) { continue; }
        for (int zeros = 3; zeros < 12; ++zeros) {
            struct embc_lfsr_s f;
            embc_lfsr_initialize(&f);
            for (int i = 0; i < 4; ++i) { st = steps(st, 8); mc_check(embc_lfsr_follow_u8(&f, (uint8_t) (st >> 8)) == 0, "an error without a fault"); }
            int flagged = 0, since = 0;
            for (int i = 0; i < zeros; ++i) {
                int rc = embc_lfsr_follow_u8(&f, 0);
                mc_check(rc == 0 || rc == -1, "follow returned %d", rc);
                flagged += rc != 0;
                since = rc ? 0 : since + 1;
                mc_check(since < 6, "%d zero values were not flagged", since);
                mc_check(f.error_count == flagged, "error count %d after %d flagged values", f.error_count, flagged);
            }
            for (int i = 0; i < 14; ++i) {
                st = steps(st, 8);
                int rc = embc_lfsr_follow_u8(&f, (uint8_t) (st >> 8));
                mc_check(rc == 0 || (rc == -1 && i < 8), "still out of step %d values after the zeros", i);
            }
            mc_check(f.value == st, "the follower is not in step with the generator");
        }
        mc_tick();
    }
    mc_count(255 * 9 * 20);
}
static void lfsr_many_run(void) {       /* very many errors */
    int mask = 1 << mc_choose(8);
    mc_op("every fourth value corrupted by 0x%02x", mask);
    struct embc_lfsr_s f; follower_init(&f);
    uint16_t st = 0x1357;
    for (int i = 0; i < 300000; ++i) {
        st = steps(st, 8);
        follow(&f, (uint8_t) ((st >> 8) ^ (i % 4 == 3 ? mask : 0)), i);
        if (F.skip) { F.skip = 0; F.have = 0; int e = F.errors; embc_lfsr_initialize(&f); f.error_count = e; }
        if (!(i & 1023)) { mc_tick(); }
    }
    mc_check(F.errors > 65600, "%d errors", F.errors);
    mc_count(300000);
}
static void lfsr_null_run(void) {
    mc_op("null arguments");
    volatile int x = 0;
    mc_check(MC_FATAL(embc_lfsr_initialize(0)) && MC_FATAL(embc_lfsr_seed_u16(0, 1)) && MC_FATAL(x = embc_lfsr_next_u1(0)) && MC_FATAL(x = embc_lfsr_next_u8(0)) && MC_FATAL(x = embc_lfsr_next_u16(0))
        && MC_FATAL(x = embc_lfsr_follow_u8(0, 1)), "a null instance was accepted");
}
static struct embc_lfsr_s t_l[2], t_g[2];
static void lfsr_two(int i, int s, int k) {
    static const char ops[][8] = {"bwbqff", "ffxfff", "Sbwfqf"};
    if (k == 0) { embc_lfsr_initialize(&t_l[i]); embc_lfsr_initialize(&t_g[i]); embc_lfsr_seed_u16(&t_g[i], (uint16_t) (0x1234 + i * 77)); return; }
    if (k == 7) { two_put(t_l[i].value); two_put(t_l[i].error_count); return; }
    switch (ops[s][k - 1]) {
        case 'b': two_put(embc_lfsr_next_u8(&t_l[i])); break;
        case 'w': two_put(embc_lfsr_next_u16(&t_l[i])); break;
        case 'q': two_put(embc_lfsr_next_u32(&t_l[i])); break;
        case 'S': embc_lfsr_seed_u16(&t_l[i], (uint16_t) (99 + i)); break;
        case 'f': two_put(embc_lfsr_follow_u8(&t_l[i], embc_lfsr_next_u8(&t_g[i]))); break;
        default: two_put(embc_lfsr_follow_u8(&t_l[i], (uint8_t) (embc_lfsr_next_u8(&t_g[i]) ^ 0x10))); break;
    }
    two_put(t_l[i].error_count);
}
static void lfsr_two_run(void) { static const struct two_s w = {3, 8, lfsr_two}; two_run_(&w); }
static const struct mc_scenario c29[] = {
    {"two instances", lfsr_two_run, 0, 0, 0, 0},
    {"full cycle", lfsr_cycle_run, 0, 0, 0, 0}, {"words", lfsr_words_run, 0, 0, 0, 0}, {"follow clean", lfsr_follow_run, 0, 0, 0, 0}, {"follow corrupted", lfsr_follow_run, 0, 0, 1, 0},
    {"follow lost", lfsr_follow_run, 0, 0, 2, 0}, {"follow repeated", lfsr_follow_run, 0, 0, 3, 0}, {"any values", lfsr_any_run, 0, 0, 0, 0}, {"zero values", lfsr_dead_run}, {"many errors", lfsr_many_run}, {"null", lfsr_null_run, 0, 0, 0, 0}, {0}
};

/* ------------------------------------------------------------ C30 */
#define PERIOD 4325376
static uint32_t word(int64_t pos) {
    pos %= PERIOD; if (pos < 0) { pos += PERIOD; }
    uint32_t k = (uint32_t) (pos / 2);
    if (pos & 1) { uint32_t c = k & 0xffff; return ((~c & 0xffff) << 16) | c; }
    uint32_t s = k % 33;
    return s ? 1u << (s - 1) : 0;
}
static void tx_at(struct embc_pattern_32a_tx_s * tx, int64_t pos) { /* position reached through the interface */
    static MC_KEEP uint32_t scratch[4096];
    embc_pattern_32a_tx_initialize(tx);
    while (pos > 4096) { embc_pattern_32a_tx_buffer(tx, scratch, sizeof(scratch)); pos -= 4096; mc_tick(); }
    while (pos-- > 0) { embc_pattern_32a_tx_next(tx); }
}
static void tx_period_run(void) {
    struct embc_pattern_32a_tx_s tx; memset(&tx, 0xa5, sizeof(tx));
    mc_op("a full period, twice");
    embc_pattern_32a_tx_initialize(&tx);
    mc_check(EMBC_PATTERN_32A_PERIOD == PERIOD, "documented period");
    for (int64_t i = 0; i < 2 * PERIOD + 10; ++i) {
        uint32_t v = embc_pattern_32a_tx_next(&tx);
        mc_check(v == word(i), "word %lld is 0x%08x, expected 0x%08x", (long long) i, v, word(i));
        if (!(i & 1023)) { mc_tick(); }
    }
    mc_count(2 * PERIOD);
}
static void tx_unique_run(void) {       /* consecutive pairs determine the position */
    static MC_KEEP uint8_t * seen;
    if (!seen) { seen = (uint8_t *) malloc(2u * 33 * 65536); }
    mc_op("pairs over a period");
    memset(seen, 0, 2u * 33 * 65536);
    struct embc_pattern_32a_tx_s tx;
    embc_pattern_32a_tx_initialize(&tx);
    uint32_t prev = embc_pattern_32a_tx_next(&tx);
    for (int i = 0; i < PERIOD; ++i) {
        uint32_t v = embc_pattern_32a_tx_next(&tx), s = i & 1 ? v : prev, c = (i & 1 ? prev : v) & 0xffff, k = 0;
        while (s) { ++k; s >>= 1; }
        uint32_t key = ((uint32_t) (i & 1) * 33 + k) * 65536 + c;
        mc_check(!seen[key], "the pair ending at word %d occurred before", i);
        seen[key] = 1; prev = v;
        if (!(i & 1023)) { mc_tick(); }
    }
    mc_count(PERIOD);
    free(seen); seen = 0;
}
static void tx_buffer_run(void) {
    static const int64_t starts[] = {0, 1, 2, 3, 31, 63, 64, 65, 66, 67, 131068, 131069, 131070, 131071, 131072, PERIOD - 5, PERIOD - 2, PERIOD - 1};
    struct embc_pattern_32a_tx_s tx;
    int64_t pos = starts[mc_choose(18)];
    tx_at(&tx, pos);
    static uint32_t b[140];
    for (int n = 0; n < 3; ++n) {
        static const int sizes[] = {0, 1, 2, 3, 4, 5, 33, 64, 66, 67, 129};
        int c = mc_choose(12);
        if (c == 11) { mc_op("next"); uint32_t v = embc_pattern_32a_tx_next(&tx); mc_check(v == word(pos), "word %lld is 0x%08x", (long long) pos, v); ++pos; continue; }
        int k = sizes[c];
        mc_op("buffer of %d words at %lld", k, (long long) pos);
        memset(b, 0x6b, sizeof(b));
        embc_pattern_32a_tx_buffer(&tx, b, (uint32_t) k * 4);
        for (int i = 0; i < k; ++i) { mc_check(b[i] == word(pos + i), "buffer word %d at position %lld is 0x%08x, expected 0x%08x", i, (long long) pos, b[i], word(pos + i)); }
        for (int i = k; i < 140; ++i) { mc_check(b[i] == 0x6b6b6b6b, "the buffer was overrun"); }
        pos += k;
        mc_state((uint64_t) pos);
    }
    uint32_t v = embc_pattern_32a_tx_next(&tx);
    mc_check(v == word(pos), "word %lld is 0x%08x, expected 0x%08x", (long long) pos, v, word(pos));
}
static const int bigs[] = {255, 256, 257, 4095, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 140000, 262144, 1 << 20, PERIOD - 1, PERIOD, PERIOD + 3};
#define NBIGS 20
static void tx_large_run(void) {        /* sizes around the widths of integers, at and after offsets */
    int k = bigs[mc_choose(NBIGS)], lead = mc_choose(3), k2 = mc_choose(4);
    uint32_t * b = malloc(((size_t) k + 8) * 4u);
    struct embc_pattern_32a_tx_s tx; memset(&tx, 0xa5, sizeof(tx));
    embc_pattern_32a_tx_initialize(&tx);
    for (int i = 0; i < lead; ++i) { (void) embc_pattern_32a_tx_next(&tx); }
    mc_op("%d words, then a buffer of %d words", lead, k);
    memset(b, 0x6b, ((size_t) k + 4) * 4);
    embc_pattern_32a_tx_buffer(&tx, b, (uint32_t) k * 4);
    for (int i = 0; i < k; ++i) { mc_check(b[i] == word(lead + i), "word %d of a buffer of %d is 0x%08x, expected 0x%08x", i, k, b[i], word(lead + i)); if (!(i & 4095)) { mc_tick(); } }
    for (int i = k; i < k + 4; ++i) { mc_check(b[i] == 0x6b6b6b6b, "a buffer of %d words was overrun", k); }
    mc_count(k);
    int64_t pos = lead + (int64_t) k;
    embc_pattern_32a_tx_buffer(&tx, b, (uint32_t) k2 * 4);
    for (int i = 0; i < k2; ++i) { mc_check(b[i] == word(pos + i), "word %d after a buffer of %d words is 0x%08x, expected 0x%08x", i, k, b[i], word(pos + i)); }
    uint32_t v = embc_pattern_32a_tx_next(&tx);
    mc_check(v == word(pos + k2), "the word after the buffers is 0x%08x, expected 0x%08x", v, word(pos + k2));
    mc_state(mc_mix(k, lead * 4 + k2));
    free(b);
}
static struct embc_pattern_32a_tx_s t_tx[2];
static void tx_two(int i, int s, int k) {
    uint32_t b[70];
    static const char ops[][8] = {"nnbnbn", "bBbnnB", "nBnnbn"};
    if (k == 0) { embc_pattern_32a_tx_initialize(&t_tx[i]); return; }
    if (k == 7) { return; }
    char c = ops[s][k - 1]; int n = c == 'b' ? 5 : 70;
    if (c == 'n') { two_put(embc_pattern_32a_tx_next(&t_tx[i])); }
    else { embc_pattern_32a_tx_buffer(&t_tx[i], b, (uint32_t) n * 4); two_bytes(b, n * 4); }
}
static void tx_two_run(void) { static const struct two_s w = {3, 8, tx_two}; two_run_(&w); }
static void pattern_null_run(void) {
    mc_op("null arguments");
    mc_check(MC_FATAL(embc_pattern_32a_tx_initialize(0)), "a null generator was accepted");
    static uint32_t b[2]; static struct embc_pattern_32a_rx_s r;
    mc_check(MC_FATAL(embc_pattern_32a_rx_initialize(0)) && MC_FATAL(embc_pattern_32a_rx_buffer(0, b, 4)) && MC_FATAL(embc_pattern_32a_rx_buffer(&r, 0, 4)), "a null checker was accepted");
}
static const struct mc_scenario c30[] = {
    {"null", pattern_null_run},
    {"two instances", tx_two_run, 0, 0, 0, 0},
    {"large buffers", tx_large_run, 0, 0, 0, 0},
    {"full period", tx_period_run, 0, 0, 0, 0}, {"unique pairs", tx_unique_run, 0, 0, 0, 0}, {"buffers", tx_buffer_run, 0, 0, 0, 0}, {0}
};

/* ------------------------------------------------------------ C31 */
static struct embc_pattern_32a_rx_s rx, rxb;
static int64_t fed;
static uint32_t pending[4200]; static int npending;
static void feed(uint32_t v) {
    embc_pattern_32a_rx_next(&rx, v);
    ++fed;
    pending[npending++] = v;
    mc_check(rx.receive_count == (uint64_t) fed, "receive count %llu after %lld words", (unsigned long long) rx.receive_count, (long long) fed);
}
static void flush(void) { /* the same words through the buffer interface */
    embc_pattern_32a_rx_buffer(&rxb, pending, (uint32_t) npending * 4);
    npending = 0;
    mc_check(rx.receive_count == rxb.receive_count && rx.missing_count == rxb.missing_count && rx.duplicate_count == rxb.duplicate_count && rx.error_count == rxb.error_count && rx.resync_count == rxb.resync_count,
        "the buffer and word interfaces disagree");
}
static void rx_init(void) {
    memset(&rx, 0xa5, sizeof(rx)); memset(&rxb, 0x5a, sizeof(rxb));
    embc_pattern_32a_rx_initialize(&rx); embc_pattern_32a_rx_initialize(&rxb);
    fed = 0; npending = 0;
    mc_check(!rx.receive_count && !rx.missing_count && !rx.duplicate_count && !rx.error_count && !rx.resync_count, "counters after initialize: %llu %llu %llu %llu %u",
        (unsigned long long) rx.receive_count, (unsigned long long) rx.missing_count, (unsigned long long) rx.duplicate_count, (unsigned long long) rx.error_count, rx.resync_count);
}
static void counters(const char * when, uint64_t missing, uint64_t dup, uint64_t err_lo, uint64_t err_hi, uint64_t resyncs) {
    mc_check(rx.missing_count == missing, "%s: missing count %llu, expected %llu", when, (unsigned long long) rx.missing_count, (unsigned long long) missing);
    mc_check(rx.duplicate_count == dup, "%s: duplicate count %llu, expected %llu", when, (unsigned long long) rx.duplicate_count, (unsigned long long) dup);
    mc_check(rx.error_count >= err_lo && rx.error_count <= err_hi, "%s: error count %llu, expected %llu..%llu", when, (unsigned long long) rx.error_count, (unsigned long long) err_lo, (unsigned long long) err_hi);
    mc_check(rx.resync_count == resyncs, "%s: resync count %u, expected %llu", when, rx.resync_count, (unsigned long long) resyncs);
}
static void rx_starts_run(void) {       /* from every position */
    int part = mc_choose(528);
    mc_op("starts from %d", part * 8192);
    for (int i = 0; i < 8192; ++i) {
        int64_t pos = (int64_t) part * 8192 + i;
        embc_pattern_32a_rx_initialize(&rx); fed = 0; npending = 0;
        for (int k = 0; k < 4; ++k) { feed(word(pos + k)); }
        counters("clean start", 0, 0, 0, 0, 0);
        mc_tick();
    }
    mc_count(8192 * 4);
}
static void rx_long_run(void) {         /* a period and more without a fault */
    int start = mc_choose(4);
    int64_t pos = (int64_t) start * 1000003;
    mc_op("a period from %lld", (long long) pos);
    rx_init();
    for (int64_t i = 0; i < PERIOD + 1000; ++i) { feed(word(pos + i)); if (npending == 4096) { flush(); mc_tick(); } }
    flush();
    mc_count(PERIOD);
    counters("clean", 0, 0, 0, 0, 0);
}
static const int amounts[] = {1, 2, 3, 4, 5, 31, 32, 33, 64, 65, 66, 67, 131, 132, 1023, 65535, 65536, 131070, 131071, 131072, 131073, 131138, 1000000, 2097151, PERIOD / 2 - 5};
static void rx_fault_run(void) {
    static const int starts[] = {0, 1, 40, 55, 57, 59, 60, 61, 131056, 131058, 131060, 131061, 2000001, PERIOD - 14, PERIOD - 12, PERIOD - 10, PERIOD - 9, PERIOD - 7};
    int64_t pos = starts[mc_choose(18)];
    int before = 2 + mc_choose(4);
    uint64_t missing = 0, dup = 0, elo = 0, ehi = 0, resyncs = 0;
    rx_init();
    mc_op("%d words from %lld", before, (long long) pos);
    for (int i = 0; i < before; ++i) { feed(word(pos++)); }
    flush();
    counters("start", 0, 0, 0, 0, 0);
    int nf = mc_arg;
    for (int f = 0; f < nf; ++f) {
        int kind = mc_choose(3);
        if (kind == 0) { int n = amounts[mc_choose(mc_arg <= 2 ? 25 : 7)]; mc_op("%d words lost", n); pos += n; missing += (uint64_t) n; ++elo; ++ehi; ++resyncs; }
        else if (kind == 1) { int n = amounts[mc_choose(mc_arg <= 2 ? 25 : 7)]; mc_op("%d words repeated", n); pos -= n; dup += (uint64_t) n; ++elo; ++ehi; ++resyncs; }
        else { /* corrupted into something that is no word of the pattern */
            static const uint32_t m[] = {0x5, 0x80000001, 0xffffffff, 0x00010001, 0x3};
            int c = mc_choose(6);
            uint32_t w = word(pos), v = c == 5 ? 0xdeadbeef : w ^ m[c];
            if ((v & (v - 1)) == 0 || ((~v >> 16) & 0xffff) == (v & 0xffff)) { mc_prune(); }
            mc_op("word 0x%08x corrupted to 0x%08x", w, v);
            feed(v); ++pos;
            ++missing; ++elo; ehi += 2; ++resyncs;
        }
        int good = 4 + mc_choose(2);
        mc_op("%d words", good);
        for (int i = 0; i < good; ++i) { feed(word(pos++)); }
        flush();
        counters("after the fault", missing, dup, elo, ehi, resyncs);
        uint64_t err = rx.error_count;
        feed(word(pos++)); feed(word(pos++));
        mc_check(rx.error_count == err, "errors after resynchronisation");
        mc_state(mc_mix(mc_mix(mc_mix(missing, dup), resyncs), (uint64_t) ((pos % PERIOD) + PERIOD)));
    }
    for (int i = 0; i < 70; ++i) { feed(word(pos++)); }
    flush();
    counters("end", missing, dup, elo, ehi, resyncs);
}
static void rx_exact_run(void) {        /* every jump distance up to a bound, both directions, from both word kinds */
    int block = mc_choose(mc_tier(64, 528)), par = mc_choose(2), back = mc_choose(2);
    mc_op("jumps of %d.., %s", block * 4096 + 1, back ? "back" : "forward");
    for (int i = 0; i < 4096; ++i) {
        int n = block * 4096 + 1 + i;
        if (n > PERIOD / 2 - 3) { break; }
        embc_pattern_32a_rx_initialize(&rx); fed = 0; npending = 0;
        int64_t pos = 131050 + par;
        for (int k = 0; k < 4; ++k) { feed(word(pos++)); }
        pos += back ? -n : n;
        for (int k = 0; k < 4; ++k) { feed(word(pos++)); }
        counters(back ? "jump back" : "jump forward", back ? 0 : n, back ? n : 0, 1, 1, 1);
        mc_tick();
    }
    mc_count(4096 * 8);
}
static void rx_large_run(void) {        /* large buffers with a fault near either end, compared with the word interface */
    int k = bigs[mc_choose(NBIGS)], lead = mc_choose(3), kind = mc_choose(3), where = mc_choose(3);
    uint32_t * b = malloc(((size_t) k + 8) * 4u);
    static const int n[] = {1, 2, 70000};
    int amount = kind ? n[mc_choose(3)] : 0;
    int at = where == 0 ? 5 : (where == 1 ? k / 2 : k - 5);
    int64_t pos = 1000;
    for (int i = 0; i < k; ++i) {
        if (i == at) { pos += kind == 1 ? amount : -amount; }
        b[i] = word(lead + pos); ++pos;
    }
    mc_op("%d words, then a buffer of %d words, %s %d at word %d", lead, k, kind == 0 ? "no fault" : (kind == 1 ? "lost" : "repeated"), amount, at);
    memset(&rx, 0xa5, sizeof(rx));
    embc_pattern_32a_rx_initialize(&rx);
    for (int i = 0; i < lead; ++i) { embc_pattern_32a_rx_next(&rx, word(1000 + i)); }
    embc_pattern_32a_rx_buffer(&rx, b, (uint32_t) k * 4);
    mc_check(rx.receive_count == (uint64_t) (k + lead), "receive count %llu after %d words", (unsigned long long) rx.receive_count, k + lead);
    counters("large buffer", kind == 1 ? (uint64_t) amount : 0, kind == 2 ? (uint64_t) amount : 0, kind != 0, kind != 0, kind != 0);
    mc_count(k);
    mc_state(mc_mix(mc_mix(k, lead), mc_mix(kind * 4 + where, amount)));
    free(b);
}
static struct embc_pattern_32a_rx_s t_rx[2]; static int64_t t_pos[2];
static void rx_two(int i, int s, int k) {
    static const char ops[][8] = {"nbmnbn", "bdxnnb", "xnnmbd"};     /* m: words are missing, d: a word is repeated, x: a wrong word */
    if (k == 0) { embc_pattern_32a_rx_initialize(&t_rx[i]); t_pos[i] = 1000 * (i + 1); }
    else if (k < 7) {
        char c = ops[s][k - 1];
        if (c == 'b') { uint32_t b[6]; for (int j = 0; j < 6; ++j) { b[j] = word(t_pos[i]++); } embc_pattern_32a_rx_buffer(&t_rx[i], b, sizeof(b)); }
        else {
            if (c == 'm') { t_pos[i] += 4; } else if (c == 'd') { t_pos[i] -= 1; }
            embc_pattern_32a_rx_next(&t_rx[i], word(t_pos[i]++) ^ (c == 'x' ? 0x1100 : 0));
        }
    }
    two_put((int64_t) t_rx[i].receive_count); two_put((int64_t) t_rx[i].missing_count); two_put((int64_t) t_rx[i].duplicate_count);
    two_put((int64_t) t_rx[i].error_count); two_put(t_rx[i].resync_count);
}
static void rx_two_run(void) { static const struct two_s w = {3, 8, rx_two}; two_run_(&w); }
static const struct mc_scenario c31[] = {
    {"null", pattern_null_run},
    {"two instances", rx_two_run, 0, 0, 0, 0},
    {"large buffers", rx_large_run, 0, 0, 0, 0},
    {"every start", rx_starts_run, 0, 0, 0, 0}, {"full period", rx_long_run, 0, 0, 0, 0}, {"one fault", rx_fault_run, 0, 0, 1, 0}, {"two faults", rx_fault_run, 0, 0, 2, 0}, {"three faults", rx_fault_run, 0, 0, 3, 1},
    {"every jump", rx_exact_run, 0, 0, 0, 0}, {0}
};
const struct mc_property mc_properties[] = {
    {"C28", c28},
    {"C29", c29},
    {"C30", c30},
    {"C31", c31},
    {0}
};
