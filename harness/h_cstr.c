/* C25: integer text.  C26: scaled decimal and float text.  C27: string utilities. */
#include "mc.h"
#include "embc/cstr.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <float.h>

static int sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int dg(char c) { return c >= '0' && c <= '9'; }
static int hx(char c) { return dg(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* an exactly sized heap copy, so that reading past the terminator is caught */
static char * exact(const char * s) { size_t n = strlen(s) + 1; char * p = malloc(n); memcpy(p, s, n); return p; }

static char text[40];
static void choose_text(const char * alphabet, int max) {
    int n = (int) strlen(alphabet), i = 0;
    for (; i < max; ++i) { int c = mc_choose(n + 1); if (c == 0) { break; } text[i] = alphabet[c - 1]; }
    text[i] = 0;
}
/* ------------------------------------------------------------ C25 */
/* magnitude of digits or 0x digits spanning to trailing blanks; -1: not a number, -2: too big for 64 bits, -3 0X prefix */
static int64_t magnitude(const char * s) {
    int64_t v = 0; int n = 0, big = 0;
    if (s[0] == '0' && s[1] == 'x') {
        for (s += 2; hx(*s) >= 0; ++s, ++n) { if (v >> 56) { big = 1; } else { v = v * 16 + hx(*s); } }
    } else if (s[0] == '0' && s[1] == 'X') { return -3; }
    else { for (; dg(*s); ++s, ++n) { if (v > (1LL << 56)) { big = 1; } else { v = v * 10 + (*s - '0'); } } }
    if (!n) { return -1; }
    while (sp(*s)) { ++s; }
    if (*s) { return -1; }
    return big ? INT64_MAX : v;
}
static void int_check(void) {
    mc_op("convert \"%s\"", text);
    char * s = exact(text);
    const char * p = text;
    while (sp(*p)) { ++p; }
    int64_t m = magnitude(p);
    uint32_t u = 0x5a5a1234;
    int rc = embc_cstr_to_u32(s, &u);
    if (m != -3) {
        int ok = m >= 0 && m <= 0xffffffffLL;
        mc_check((rc == 0) == ok, "to_u32(\"%s\") returned %d", text, rc);
        if (ok) { mc_check(u == (uint32_t) m, "to_u32(\"%s\") gave %u", text, u); }
    }
    mc_check(rc == 0 || u == 0x5a5a1234, "to_u32(\"%s\") failed and changed the value", text);
    int neg = *p == '-';
    if (*p == '-' || *p == '+') { ++p; }
    m = magnitude(p);
    int32_t i = 0x5a5a1234;
    rc = embc_cstr_to_i32(s, &i);
    if (m != -3) {
        int ok = m >= 0 && m <= 0x7fffffffLL + neg;
        mc_check((rc == 0) == ok, "to_i32(\"%s\") returned %d", text, rc);
        if (ok) { mc_check(i == (neg ? -m : m), "to_i32(\"%s\") gave %d", text, i); }
    }
    mc_check(rc == 0 || i == 0x5a5a1234, "to_i32(\"%s\") failed and changed the value", text);
    mc_check(0 == strcmp(s, text), "the text was changed");
    free(s);
    mc_state(mc_hash(0, text, strlen(text)));
}
static void int_text_run(void) { choose_text(mc_arg == 0 ? "019x-+ fg" : mc_arg == 1 ? "0x9aFG \t-" : "x0 \n1\v.X", mc_tier(7, 8)); int_check(); }
static void int_limits_run(void) {
    static const uint64_t base[] = {0, 1, 9, 10, 99, 100, 255, 256, 999, 4096, 65535, 65536, 99999, 100000, 1000000, 0xfffff, 10000000, 0xfffffff, 100000000, 1000000000,
        0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 4000000000ull, 9999999999ull, 10000000000ull, 0x1ffffffffull, 0xfffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 42949672960ull, 21474836480ull};
    uint64_t v = base[mc_choose(33)] + (uint64_t) (mc_choose(9) - 4);
    static const char * const pre[] = {"", "-", "+", " ", " -", "\t+", "- ", "+ ", "--", "+-"};
    static const char * const post[] = {"", " ", " \t\r\n", "h", " 1", "-", "."};
    static const char * const fmt[] = {"%s%llu%s", "%s0x%llx%s", "%s0x%llX%s", "%s000%llu%s", "%s0x000%llx%s"};
    int a = mc_choose(10), b = mc_choose(7), f = mc_choose(5);
    char t[80];
    snprintf(t, sizeof(t), fmt[f], pre[a], (unsigned long long) v, post[b]);
    if (strlen(t) >= sizeof(text)) { mc_prune(); }
    strcpy(text, t);
    int_check();
}
static void int_long_run(void) { /* values wrapping 64 bits, many digits, and all bytes as first/last character */
    if (mc_choose(2)) {
        int n = 1 + mc_choose(30), d = mc_choose(10), h = mc_choose(2), lead = mc_choose(2);
        int k = h ? sprintf(text, "0x") : 0;
        for (int i = 0; i < n; ++i) { text[k++] = (char) ('0' + (i == 0 || !lead ? d : 0)); }
        text[k] = 0;
    } else {
        int c = mc_choose(256), pos = mc_choose(4), h = mc_choose(2);
        strcpy(text, h ? "0x17" : "1734");
        text[pos] = (char) c;
    }
    int_check();
}
static void int_null_run(void) {
    mc_op("null arguments");
    uint32_t u = 7; int32_t i = 8;
    mc_check(embc_cstr_to_u32(0, &u) != 0 && u == 7 && embc_cstr_to_u32("1", 0) != 0, "to_u32 null arguments");
    mc_check(embc_cstr_to_i32(0, &i) != 0 && i == 8 && embc_cstr_to_i32("1", 0) != 0, "to_i32 null arguments");
}
/* long texts: runs of blanks, zeros or digits around the widths of integers */
static const int runs[] = {15, 16, 31, 32, 127, 128, 255, 256, 257, 300, 32767, 32768, 65535, 65536, 70000};
static char * repeat(const char * a, char c, int n, const char * b) {
    size_t na = strlen(a), nb = strlen(b);
    char * p = malloc(na + n + nb + 1);
    memcpy(p, a, na); memset(p + na, c, n); memcpy(p + na + n, b, nb + 1);
    return p;
}
static void int_run_run(void) {
    int n = runs[mc_choose(15)], kind = mc_choose(8), over = mc_choose(2);
    static const char * const a[] = {"", "0x", "", "12", "0x2f", "", "-", "1"}, * const b[] = {"12", "2f", "12", "", "", "x12", "12", ""};
    static const char c[] = "00    00";
    static const uint32_t v[] = {12, 0x2f, 12, 12, 0x2f, 0, 12, 0};
    static const int ok[] = {1, 1, 1, 1, 1, 0, 2, 0};
    mc_op("%d characters '%c' between \"%s\" and \"%s\"", n, c[kind], a[kind], b[kind]);
    char * s = repeat(a[kind], c[kind], n, over && ok[kind] ? (kind == 1 ? "100000000" : kind == 3 || kind == 4 ? "1" : "4294967296") : b[kind]);
    uint32_t u = 99; int32_t i = 98;
    int r1 = embc_cstr_to_u32(s, &u), r2 = embc_cstr_to_i32(s, &i);
    int good = ok[kind] && !over;
    mc_check((r1 == 0) == (good && ok[kind] == 1), "to_u32 returned %d", r1);
    mc_check(u == (r1 == 0 ? v[kind] : 99), "to_u32 gave %u", u);
    mc_check((r2 == 0) == good, "to_i32 returned %d", r2);
    mc_check(i == (good ? (ok[kind] == 2 ? -12 : (int32_t) v[kind]) : 98), "to_i32 gave %d", i);
    free(s);
    mc_state(mc_mix(n, kind * 2 + over));
}
static const struct mc_scenario c25[] = {
    {"long texts", int_run_run, 0, 0, 0, 0},
    {"decimal texts", int_text_run, 0, 0, 0, 0}, {"hex texts", int_text_run, 0, 0, 1, 0}, {"other texts", int_text_run, 0, 0, 2, 0},
    {"limits", int_limits_run, 0, 0, 0, 0}, {"digits and bytes", int_long_run, 0, 0, 0, 0}, {"null", int_null_run, 0, 0, 0, 0}, {0}
};

/* ------------------------------------------------------------ C26 */
static void scaled_check(int e) {
    mc_op("scaled \"%s\" exponent %d", text, e);
    char * s = exact(text);
    /* reference: exact parse, then scale by truncation */
    const char * p = text;
    while (sp(*p)) { ++p; }
    int neg = *p == '-';
    if (*p == '-' || *p == '+') { ++p; }
    const char * ip = p; while (dg(*p)) { ++p; } int in = (int) (p - ip);
    const char * fp = p; int fn = 0, point = *p == '.';
    if (point) { fp = ++p; while (dg(*p)) { ++p; } fn = (int) (p - fp); }
    while (sp(*p)) { ++p; }
    int ok = *p == 0 && in + fn > 0, loose = ok && point && (in == 0 || fn == 0);
    int64_t v = 0, lim = 0x7fffffffLL + neg;
    if (ok) {
        for (int i = 0; i < in + e && v <= lim; ++i) { v = v * 10 + (i < in ? ip[i] - '0' : i - in < fn ? fp[i - in] - '0' : 0); }
        if (v > lim) { ok = loose = 0; }
    }
    int32_t r = 0x5a5a1234;
    int rc = embc_cstr_to_i32s(s, e, &r);
    if (e < 0) { ok = loose = 0; }
    mc_check(loose || (rc == 0) == ok, "to_i32s(\"%s\", %d) returned %d", text, e, rc);
    if (rc == 0) { mc_check(r == (neg ? -v : v), "to_i32s(\"%s\", %d) gave %d, expected %lld", text, e, r, (long long) (neg ? -v : v)); }
    else { mc_check(r == 0x5a5a1234, "to_i32s(\"%s\", %d) failed and changed the value", text, e); }
    mc_check(0 == strcmp(s, text), "the text was changed");
    free(s);
}
static void scaled_run(void) { choose_text(mc_arg ? "+01, .x" : "12.- 9", mc_tier(7, 8)); scaled_check(mc_choose(6) - 1); mc_state(mc_hash(0, text, strlen(text))); }
static void scaled_limits_run(void) {
    static const uint64_t base[] = {0, 1, 10, 99, 214748364, 214748365, 2147483647, 2147483648ull, 4294967295ull, 4294967296ull, 21474836470ull, 21474836480ull, 9223372036854775807ull, 18446744073709551615ull, 99999999999ull};
    uint64_t v = base[mc_choose(15)] + (uint64_t) (mc_choose(5) - 2);
    char d[40], t[80];
    snprintf(d, sizeof(d), "%llu", (unsigned long long) v);
    int n = (int) strlen(d), cut = mc_choose(n + 1);
    static const char * const pre[] = {"", "-", "+", "  ", " -", "- ", "00"};
    static const char * const post[] = {"", "0", "9", "99999", " ", "  \t", " 5", ".", ",", "x", "00 "};
    snprintf(t, sizeof(t), cut == n ? "%s%.*s%s%s" : "%s%.*s.%s%s", pre[mc_choose(7)], cut, d, d + cut, post[mc_choose(11)]);
    if (strlen(t) >= sizeof(text)) { mc_prune(); }
    strcpy(text, t);
    scaled_check(mc_choose(13) - 1);
}
static void f32_check(void) {
    mc_op("float \"%s\"", text);
    char * s = exact(text);
    const char * p = text;
    while (sp(*p)) { ++p; }
    int neg = *p == '-';
    if (*p == '-' || *p == '+') { ++p; }
    long double m = 0; int n = 0, scale = 0, e = 0, letters = 0;
    for (; dg(*p); ++p, ++n) { m = m * 10 + (*p - '0'); }
    if (*p == '.') { for (++p; dg(*p); ++p, ++n) { m = m * 10 + (*p - '0'); --scale; } }
    if (n && (*p == 'e' || *p == 'E')) {
        const char * q = p + 1; int en = *q == '-', k = 0;
        if (*q == '-' || *q == '+') { ++q; }
        for (; dg(*q); ++q, ++k) { if (e < 1000) { e = e * 10 + (*q - '0'); } }
        if (k) { p = q; if (en) { e = -e; } } else { e = 0; }
    }
    while (sp(*p)) { ++p; }
    int ok = *p == 0 && n > 0;
    for (const char * q = text; *q; ++q) { letters |= *q == 'x' || *q == 'X' || *q == 'n' || *q == 'i' || *q == 'I' || *q == 'N'; }
    scale += e;
    float r = 12345.5f;
    int rc = embc_cstr_to_f32(s, &r);
    if (ok) {
        long double v = m;
        for (int i = 0; i < scale && i < 60; ++i) { v *= 10; }
        if (scale < 0) { long double d = 1; for (int i = 0; i < -scale && i < 60; ++i) { d *= 10; } v /= d; }
        if (v <= FLT_MAX && (v >= FLT_MIN || v == 0)) {
            mc_check(rc == 0, "to_f32(\"%s\") returned %d", text, rc);
            float want = (float) (neg ? -v : v);
            mc_check(r == want, "to_f32(\"%s\") gave %.9g, expected %.9g", text, r, want);
        }
    } else if (!letters) { mc_check(rc != 0, "to_f32(\"%s\") was accepted as %g", text, r); }
    mc_check(rc == 0 || r == 12345.5f, "to_f32(\"%s\") failed and changed the value", text);
    free(s);
}
static void f32_run(void) { choose_text(mc_arg ? "07. E+z" : "12.-e 5", mc_tier(7, 8)); f32_check(); mc_state(mc_hash(1, text, strlen(text))); }
static void f32_misc_run(void) {
    static const char * const t[] = {"hello", "  hello ", "4.2 x", "1 2", "--1", "+ 1", "16777216", "16777217", "16777219", "33554431", "0.1", "3.4028234e38", "1.17549435e-38", "1e10", "1e-10", "e5", ".e5", "123456789", "   ", "", "\t\n\v\f\r7\t\n\v\f\r"};
    strcpy(text, t[mc_choose(21)]);
    f32_check();
    mc_op("null arguments");
    float f = 7; int32_t i = 8;
    mc_check(embc_cstr_to_f32(0, &f) != 0 && f == 7 && embc_cstr_to_f32("1", 0) != 0, "to_f32 null arguments");
    mc_check(embc_cstr_to_i32s(0, 2, &i) != 0 && i == 8, "to_i32s of NULL text reports success");
}
/* numbers at and around the middle of two neighbouring floats: correct rounding depends on the last digit */
static void f32_middle_run(void) {
    static const uint32_t m[] = {0, 1, 2, 3, 0x400000, 0x400001, 0x555555, 0x2aaaaa, 0x7ffffc, 0x7ffffd, 0x7ffffe, 0x7fffff, 0x123456, 0x123457};
    int ex = mc_choose(255), neg = mc_choose(2); uint32_t b = (uint32_t) ex << 23 | m[mc_choose(14)];
    if (b >= 0x7f7fffff) { mc_prune(); }
    float lo, hi; uint32_t b1 = b + 1;
    memcpy(&lo, &b, 4); memcpy(&hi, &b1, 4);
    char x[300], s[640];
    snprintf(x, sizeof(x), "%.200e", ((double) lo + (double) hi) / 2);      /* exact: it has 25 significant bits */
    char * e = strchr(x, 'e'), ep[16]; strcpy(ep, e);
    while (e[-1] == '0') { --e; }
    *e = 0;
    for (int k = 0; k < 7; ++k) {       /* the middle, above, below it, by less and less */
        strcpy(s, neg ? "-" : ""); strcat(s, x);
        int l = (int) strlen(s);
        if (k & 1) { for (int i = 0; i < k * k; ++i) { strcat(s, "0"); } strcat(s, "1"); }
        else if (k) { --s[l - 1]; for (int i = 0; i < k * k; ++i) { strcat(s, "9"); } }
        strcat(s, ep);
        float want = k == 0 ? (b & 1 ? hi : lo) : k & 1 ? hi : lo, r = 7;
        mc_op("%s", s);
        char * t = exact(s);
        int rc = embc_cstr_to_f32(t, &r);
        free(t);
        mc_check(rc == 0 && r == (neg ? -want : want), "to_f32 returned %d, gave %.9g, expected %.9g", rc, r, neg ? -want : want);
    }
    mc_state(b);
}
static void scaled_run_run(void) {
    int n = runs[mc_choose(15)], kind = mc_choose(7), e = mc_choose(4);
    static const char * const a[] = {"", "1.25", "-0.", "1.25", "", "3.4", "1"}, * const b[] = {"1.25", "", "7", "", "2.5", "x", ""};
    static const char c[] = "000  00";
    static const int32_t v[][4] = {{1, 12, 125, 1250}, {1, 12, 125, 1250}, {0, 0, 0, 0}, {1, 12, 125, 1250}, {2, 25, 250, 2500}, {0}, {0}};
    mc_op("%d characters '%c' between \"%s\" and \"%s\", exponent %d", n, c[kind], a[kind], b[kind], e);
    char * s = repeat(a[kind], c[kind], n, b[kind]);
    int32_t i = 98;
    int rc = embc_cstr_to_i32s(s, e, &i);
    int good = kind < 5;
    mc_check((rc == 0) == good, "to_i32s returned %d", rc);
    mc_check(i == (good ? v[kind][e] : 98), "to_i32s gave %d", i);
    float f = 97.0f;
    rc = embc_cstr_to_f32(s, &f);
    if (kind != 2 && kind != 6) {
        mc_check((rc == 0) == good, "to_f32 returned %d", rc);
        mc_check(f == (good ? (kind == 4 ? 2.5f : 1.25f) : 97.0f), "to_f32 gave %g", f);
    }
    free(s);
    mc_state(mc_mix(n, kind * 4 + e));
}
static void number_bytes_run(void) {      /* every character in each place of a number */
    static const char * const base[] = {"1734", "-12.50", "+0.125 ", "1.5e-3", " 9.", "2E+05"};
    const char * w = base[mc_choose(6)]; int i = mc_choose((int) strlen(w) + 1);
    for (int c = 0; c < 256; ++c) {
        strcpy(text, w);
        if (i == (int) strlen(w)) { text[i + 1] = 0; }
        text[i] = (char) c;
        for (int e = 0; e < 4; ++e) { scaled_check(e); }
        f32_check();
    }
}
static const struct mc_scenario c26[] = {
    {"any character", number_bytes_run},
    {"long texts", scaled_run_run, 0, 0, 0, 0},
    {"scaled texts", scaled_run, 0, 0, 0, 0}, {"scaled other texts", scaled_run, 0, 0, 1, 0}, {"scaled limits", scaled_limits_run, 0, 0, 0, 0},
    {"float texts", f32_run, 0, 0, 0, 0}, {"float other texts", f32_run, 0, 0, 1, 0}, {"float misc", f32_misc_run, 0, 0, 0, 0}, {"float middles", f32_middle_run, 0, 0, 0, 0}, {0}
};

/* ------------------------------------------------------------ C27 */
static void choose_from(char * d, const char * alphabet, int max) { choose_text(alphabet, max); strcpy(d, text); }
static char up(char c) { return c >= 'a' && c <= 'z' ? (char) (c - 32) : c; }

static void copy_run(void) {
    static char arr[5];
    char src[16]; choose_from(src, "ab\x80", 7);
    int size = mc_choose(10) - 1;
    mc_op("copy \"%s\" into %d", src, size);
    char buf[32]; memset(buf, 0x7e, sizeof(buf));
    char * s = exact(src);
    int n = (int) strlen(src), rc = embc_cstr_copy(buf + 8, s, size);
    if (size <= 0) { mc_check(rc == -1, "copy into %d bytes returned %d", size, rc); for (int i = 0; i < 32; ++i) { mc_check(buf[i] == 0x7e, "copy into %d bytes wrote", size); } }
    else {
        int k = n < size ? n : size - 1;
        mc_check(rc == (n >= size), "copy of %d characters into %d bytes returned %d", n, size, rc);
        mc_check(0 == memcmp(buf + 8, src, k) && buf[8 + k] == 0, "copy of \"%s\" into %d bytes gave \"%.8s\"", src, size, buf + 8);
        for (int i = 0; i < 32; ++i) { mc_check((i >= 8 && i < 8 + size) || buf[i] == 0x7e, "copy wrote outside the target"); }
    }
    memset(arr, 'q', sizeof(arr));
    rc = embc_cstr_array_copy(arr, s);
    int k = n < 5 ? n : 4;
    mc_check(rc == (n >= 5) && 0 == memcmp(arr, src, k) && arr[k] == 0, "array_copy of \"%s\"", src);
    free(s);
    mc_check(embc_cstr_copy(0, "x", 4) == -1, "copy into NULL");
    memset(buf, 'q', 4);
    mc_check(embc_cstr_copy(buf, 0, 4) == 0 && buf[0] == 0, "copy from NULL");
}
static int sign(int x) { return (x > 0) - (x < 0); }
static void compare(const char * a, const char * b) {
    mc_op("compare \"%s\" \"%s\"", a, b);
    char * pa = exact(a), * pb = exact(b);
    int r = embc_cstr_casecmp(pa, pb), q = embc_cstr_casecmp(pb, pa), i = 0;
    mc_check(r >= -1 && r <= 1 && r == -q, "casecmp(\"%s\", \"%s\") is %d, reversed %d", a, b, r, q);
    while (a[i] && up(a[i]) == up(b[i])) { ++i; }
    if (!a[i] && !b[i]) { mc_check(r == 0, "casecmp(\"%s\", \"%s\") is %d", a, b, r); }
    else {
        mc_check(r != 0, "casecmp(\"%s\", \"%s\") is 0", a, b);
        /* the order of letters against the characters between the cases, and of non-ASCII bytes, is not specified */
        int plain = !((a[i] | b[i]) & 0x80) && !strchr("[\\]^_`", a[i] ? a[i] : '[') && !strchr("[\\]^_`", b[i] ? b[i] : '[');
        if (!a[i]) { mc_check(r == -1, "casecmp(\"%s\", \"%s\") is %d", a, b, r); }
        else if (!b[i]) { mc_check(r == 1, "casecmp(\"%s\", \"%s\") is %d", a, b, r); }
        else if (plain) { mc_check(r == sign(up(a[i]) - up(b[i])), "casecmp(\"%s\", \"%s\") is %d", a, b, r); }
    }
    const char * w = embc_cstr_starts_with(pa, pb);
    size_t n = strlen(b);
    const char * e = 0 == strncmp(a, b, n) ? pa + n : 0;
    mc_check(w == e, "starts_with(\"%s\", \"%s\") is %s", a, b, w ? "a match" : "no match");
    mc_check(0 == strcmp(a, pa) && 0 == strcmp(b, pb), "arguments changed");
    free(pa); free(pb);
}
static void pair_run(void) {
    static const char * const al[] = {"aAzZ", "0b_B", "[{@`", "\xe1\xc1" "k"};
    char a[16], b[16];
    const char * k = al[mc_arg];
    int m = mc_arg == 0 ? mc_tier(4, 5) : mc_tier(3, 5);
    choose_from(a, k, m); choose_from(b, k, m);
    compare(a, b);
}
static void bytes_run(void) {       /* all pairs of characters */
    int c = mc_choose(255), tail = mc_choose(2);
    for (int i = 1; i < 256; ++i) {
        char a[4] = {'x', (char) (c + 1), 'k', 0}, b[4] = {'x', (char) i, tail ? 'K' : 0, 0};
        compare(a, b);
    }
}
static void upper_run(void) {
    char a[16]; int n = mc_choose(4);
    if (n == 3) { choose_from(a, "aZm {", 5); }
    else { int c = 1 + mc_choose(255); a[0] = 'x'; a[1] = (char) c; a[2] = n ? (char) (256 - c) : 0; a[3] = 0; }
    mc_op("toupper \"%s\"", a);
    char * s = exact(a);
    mc_check(embc_cstr_toupper(s) == 0, "toupper failed");
    for (int i = 0; i <= (int) strlen(a); ++i) { mc_check(s[i] == up(a[i]), "toupper of byte 0x%02x gave 0x%02x", (uint8_t) a[i], (uint8_t) s[i]); }
    free(s);
    mc_check(embc_cstr_toupper(0) != 0, "toupper(NULL) reports success");
}
static void hex_run(void) {
    int c = mc_choose(256);
    mc_op("hex digit 0x%02x", c);
    int e = hx((char) c); if (c >= 128 || e < 0) { e = 0; }
    mc_check(embc_cstr_hex_to_u4((char) c) == e, "hex_to_u4(0x%02x) is %d", c, embc_cstr_hex_to_u4((char) c));
    mc_check(embc_cstr_u4_to_hex((uint8_t) c) == (c < 16 ? "0123456789ABCDEF"[c] : '0'), "u4_to_hex(%d) is '%c'", c, embc_cstr_u4_to_hex((uint8_t) c));
}
static const char * const words[] = {"TRUE", "ON", "1", "ENABLE", "FALSE", "OFF", "0", "DISABLE"};
static void bool_expect(const char * s) {
    int e = -1;
    for (int w = 0; w < 8; ++w) {
        int i = 0; while (s[i] && up(s[i]) == words[w][i]) { ++i; }
        if (!s[i] && !words[w][i]) { e = w < 4; }
    }
    for (int init = 0; init < 2; ++init) {
        bool v = init; char * p = exact(s);
        int rc = embc_cstr_to_bool(p, &v);
        mc_check((rc == 0) == (e >= 0), "to_bool(\"%s\") returned %d", s, rc);
        mc_check(v == (e >= 0 ? e : init), "to_bool(\"%s\") gave %d", s, v);
        mc_check(0 == strcmp(p, s), "to_bool changed the text");
        free(p);
    }
}
static void bool_run(void) {
    char s[64];
    if (mc_choose(2)) { choose_from(s, "oOnNfF1", mc_tier(4, 6)); }
    else { /* a word with any letters in lower case, then one edit */
        const char * w = words[mc_choose(8)]; int n = (int) strlen(w);
        strcpy(s, w);
        for (int i = 0; i < n; ++i) { if (s[i] >= 'A' && mc_choose(2)) { s[i] = (char) (s[i] + 32); } }
        static const char * const tails[] = {"", " ", "X", "0", "xxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxx"};
        switch (mc_choose(4)) {
            case 1: strcat(s, tails[mc_choose(6)]); break;
            case 2: s[mc_choose(n)] = "x \x80"[mc_choose(3)]; break;
            case 3: s[mc_choose(n)] = 0; break;
            default: break;
        }
    }
    mc_op("to_bool \"%s\"", s);
    bool_expect(s);
    bool v = true;
    mc_check(embc_cstr_to_bool(0, &v) != 0 && v && embc_cstr_to_bool("ON", 0) != 0, "to_bool null arguments");
}
static void bool_bytes_run(void) {      /* each word with one character replaced by every character */
    char s[64]; const char * w = words[mc_choose(8)]; int i = mc_choose((int) strlen(w));
    for (int c = 1; c < 256; ++c) {
        strcpy(s, w); s[i] = (char) c;
        mc_op("to_bool \"%s\"", s);
        bool_expect(s);
    }
}
static void index_run(void) {
    static const char * const pool[] = {"a", "ab", "", "A", "abc", "b"};
    const char * table[5]; char s[8]; int n = mc_choose(5), e = -1;
    for (int i = 0; i < n; ++i) { table[i] = pool[mc_choose(6)]; }
    table[n] = 0;
    choose_from(s, "abcA", 3);
    mc_op("to_index \"%s\" in %d entries", s, n);
    for (int i = n - 1; i >= 0; --i) { if (0 == strcmp(table[i], s)) { e = i; } }
    int idx = -77, rc = embc_cstr_to_index(s, table, &idx);
    mc_check((rc == 0) == (e >= 0), "to_index(\"%s\") returned %d", s, rc);
    mc_check(idx == (e >= 0 ? e : -77), "to_index(\"%s\") gave %d, expected %d", s, idx, e);
    mc_check(embc_cstr_to_index(0, table, &idx) != 0 && embc_cstr_to_index(s, 0, &idx) != 0 && embc_cstr_to_index(s, table, 0) != 0, "to_index null arguments");
    mc_check(embc_cstr_starts_with(0, "a") == 0 && embc_cstr_starts_with(s, 0) == s, "starts_with null arguments");
    mc_check(embc_cstr_casecmp(0, s) == -1 && embc_cstr_casecmp(s, 0) == 1, "casecmp null arguments");
}
static void long_run(void) {
    int n = runs[mc_choose(15)], at = mc_choose(4), kind = mc_choose(5);
    int k = at == 0 ? 0 : at == 1 ? n - 1 : at == 2 ? n / 2 : (n > 256 ? 256 : n - 1);
    char * a = repeat("", 'q', n, ""), * b = repeat("", 'Q', n, ""), * t = malloc(n + 4);
    mc_op("texts of %d characters, kind %d, difference at %d", n, kind, k);
    if (kind == 0) {
        static const int d[] = {-1, 0, 1, 2};
        int sz = n + d[mc_choose(4)];
        memset(t, 7, n + 4);
        for (int i = 0; i < n; ++i) { a[i] = (char) ('a' + i % 26); }
        int rc = embc_cstr_copy(t, a, sz), len = n < sz ? n : sz - 1;
        mc_check(rc == (n >= sz), "copy of %d characters into %d returned %d", n, sz, rc);
        mc_check(0 == memcmp(t, a, len) && t[len] == 0, "copy of %d characters into %d", n, sz);
        for (int i = sz; i < n + 4; ++i) { mc_check(t[i] == 7, "copy wrote outside the target"); }
    } else if (kind == 1) {
        mc_check(embc_cstr_casecmp(a, b) == 0, "casecmp of equal texts of %d characters", n);
        b[k] = mc_choose(2) ? 'R' : 'p';
        int want = b[k] == 'R' ? -1 : 1;
        mc_check(embc_cstr_casecmp(a, b) == want && embc_cstr_casecmp(b, a) == -want, "casecmp of texts that differ at %d of %d", k, n);
        b[k] = 0;
        mc_check(embc_cstr_casecmp(a, b) == 1 && embc_cstr_casecmp(b, a) == -1, "casecmp with a prefix of %d of %d", k, n);
    } else if (kind == 2) {
        memset(b, 'q', n);
        mc_check(embc_cstr_starts_with(a, b) == a + n, "starts_with of equal texts of %d characters", n);
        b[k] = 'z';
        mc_check(embc_cstr_starts_with(a, b) == 0, "starts_with of texts that differ at %d of %d", k, n);
        b[k] = 0;
        mc_check(embc_cstr_starts_with(a, b) == a + k, "starts_with a prefix of %d of %d", k, n);
        mc_check(embc_cstr_starts_with(b, a) == 0, "prefix longer than the text");
    } else if (kind == 3) {
        a[k] = '7';
        mc_check(embc_cstr_toupper(a) == 0, "toupper");
        for (int i = 0; i < n; ++i) { mc_check(a[i] == (i == k ? '7' : 'Q'), "toupper left character %d of %d", i, n); }
        mc_check(a[n] == 0, "toupper");
        bool v = true;
        mc_check(embc_cstr_to_bool(a, &v) != 0 && v, "to_bool accepted %d characters", n);
    } else {
        char const ** tab = malloc(sizeof(*tab) * (n + 1));
        for (int i = 0; i < n; ++i) { tab[i] = i == k || i == n - 1 ? "find" : (const char * []) {"other", "fin", "finder", "Find", ""}[i % 5]; }
        tab[n] = 0;
        int idx = -5;
        mc_check(embc_cstr_to_index("find", tab, &idx) == 0 && idx == k, "to_index gave %d, expected %d of %d", idx, k, n);
        idx = -5;
        mc_check(embc_cstr_to_index("none", tab, &idx) != 0 && idx == -5, "to_index found an absent word");
        free(tab);
    }
    free(a); free(b); free(t);
    mc_state(mc_mix(n, kind * 4 + at));
}
static const struct mc_scenario c27[] = {
    {"long texts", long_run, 0, 0, 0, 0},
    {"copy", copy_run, 0, 0, 0, 0}, {"pairs, letters", pair_run, 0, 0, 0, 0}, {"pairs, mixed", pair_run, 0, 0, 1, 0}, {"pairs, next to letters", pair_run, 0, 0, 2, 0}, {"pairs, high bit", pair_run, 0, 0, 3, 0}, {"pairs of characters", bytes_run},
    {"upper case", upper_run, 0, 0, 0, 0}, {"hex digits", hex_run, 0, 0, 0, 0}, {"bool", bool_run, 0, 0, 0, 0}, {"bool, any character", bool_bytes_run}, {"index", index_run, 0, 0, 0, 0}, {0}
};
const struct mc_property mc_properties[] = {
    {"C25", c25},
    {"C26", c26},
    {"C27", c27},
    {0}
};
