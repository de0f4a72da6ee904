/* C42: the bundled small printf (third-party/tinyprintf) against the C library's. */
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include "tinyprintf.h"
#include "embc/inttypes.h"

#define CAP 1200
static char got[CAP + 64], want[CAP], * fmt;
static const char * names[] = {"snprintf", "vsnprintf", "sprintf", "vsprintf", "printf", "format"};
static char * format(const char * s) {          /* in a block of its own: reads behind the end are detected */
    free(fmt);
    fmt = malloc(strlen(s) + 1);
    return strcpy(fmt, s);
}

static int vs(char * d, size_t n, const char * f, ...) { va_list a; va_start(a, f); int r = tfp_vsnprintf(d, n, f, a); va_end(a); return r; }
static int vsp(char * d, const char * f, ...) { va_list a; va_start(a, f); int r = tfp_vsprintf(d, f, a); va_end(a); return r; }
struct sink { int n; char * d; };
static struct sink sink;
static void put(void * p, char c) { mc_check(p == &sink, "output function called with another pointer"); if (sink.n < CAP) { sink.d[sink.n] = c; } ++sink.n; }
static void fm(const char * f, ...) { va_list a; va_start(a, f); tfp_format(&sink, put, f, a); va_end(a); }

/* one call, through the function chosen, compared with what the C library gives (n characters in want) */
#define ARGS a[0], a[1], a[2], a[3], a[4]
static void compare(int how, size_t size, const char * f, const unsigned long long * a, int n) {
    memset(got, 0x5a, sizeof(got));
    int r = n, len = n;
    sink = (struct sink) {0, got};
    switch (how) {
        case 0: r = tfp_snprintf(got, size, f, ARGS); break;
        case 1: r = vs(got, size, f, ARGS); break;
        case 2: r = tfp_sprintf(got, f, ARGS); break;
        case 3: r = vsp(got, f, ARGS); break;
        case 4: init_printf(&sink, put); tfp_printf((char *) f, ARGS); got[sink.n] = 0; r = sink.n; break;
        default: fm(f, ARGS); got[sink.n] = 0; r = sink.n; break;
    }
    int end = n + 1;
    if (how < 2) {
        if (size == 0) { end = 0; r = n; } else if ((size_t) n + 1 > size) { len = (int) size - 1; end = (int) size; }
    }
    mc_check(r == n, "%s of '%s' returned %d, expected %d", names[how], f, r, n);
    if (end) {
        mc_check(!memcmp(got, want, len) && got[len] == 0, "%s of '%s' with size %d gave '%.*s', expected '%.*s'", names[how], f, how < 2 ? (int) size : -1, len, got, len, want);
    }
    for (int i = end; i < end + 16; ++i) { mc_check(got[i] == 0x5a, "%s of '%s' with size %d wrote at %d", names[how], f, how < 2 ? (int) size : -1, i); }
}
static void all(const char * f, const unsigned long long * a) {
    int n = snprintf(want, CAP, f, ARGS);
    mc_op("'%s' 0x%llx", f, a[0]);
    for (int how = 0; how < 6; ++how) {
        compare(how, CAP, f, a, n);
        if (how < 2) {
            compare(how, n + 1, f, a, n);
            compare(how, n, f, a, n);
            compare(how, n / 2, f, a, n);
            compare(how, 1, f, a, n);
            compare(how, 0, f, a, n);
        }
    }
}

static unsigned long long vals[700]; static int nval;
static void values(void) {
    nval = 0;
    for (int i = 0; i < 64; ++i) { for (int d = -1; d <= 1; ++d) { vals[nval++] = (1ull << i) + d; vals[nval++] = -((1ull << i) + d); } }
    unsigned long long t = 1;
    for (int i = 0; i < 20; ++i) { for (int d = -1; d <= 1; ++d) { vals[nval++] = t + d; vals[nval++] = -(t + d); } t *= 10; }
    vals[nval++] = 0x123456789abcdef0ull; vals[nval++] = 0xfedcba9876543210ull; vals[nval++] = 1020304050607080900ull; vals[nval++] = 0x80000000aaaa5555ull;
}
static const char * lengths[] = {"", "l", "ll", "z"};
static const char * flags[] = {"", "-", "0", "#", "-#", "#0", "00", "--"};
static const int widths[] = {-1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 40, 64, 99, 100, 255, 256, 257, 1000};
static const char * frames[][2] = {{"", ""}, {"<", ">"}, {"%%a ", "\n%%"}};
static void integer_run(void) {
    values();
    char cv = "diuxXo"[mc_choose(6)];
    const char * l = lengths[mc_choose(4)], * fl = flags[mc_choose(8)], * const * fr = frames[mc_choose(3)];
    int w = widths[mc_choose(32)];
    int alt = strchr(fl, '#') != 0;
    if (alt && strchr("diu", cv)) { mc_prune(); }
    char f[64], num[16] = "";
    if (w >= 0) { snprintf(num, sizeof(num), "%d", w); }
    snprintf(f, sizeof(f), "%s%%%s%s%s%c%s", fr[0], fl, num, l, cv, fr[1]);
    char * g = format(f);
    for (int i = 0; i < nval; ++i) {
        unsigned long long v = *l ? vals[i] : (unsigned) vals[i];
        if (alt && v == 0) { continue; }        /* not documented: 0x0 */
        unsigned long long a[5] = {v, 0x1111, 0x2222, 0x3333, 0x4444};
        all(g, a);
    }
    mc_state(mc_hash(1, f, strlen(f)));
}
static void text_run(void) {
    static char s[1100];
    int n = mc_choose(45); n = n > 40 ? (int[]) {127, 128, 255, 256}[n - 41] : n;
    const char * fl = (const char * []) {"", "-"}[mc_choose(2)], * const * fr = frames[mc_choose(3)];
    int w = widths[mc_choose(32)];
    for (int i = 0; i < n; ++i) { s[i] = (char) (1 + (i * 37 + n) % 255); }
    s[n] = 0;
    char f[64], num[16] = "";
    if (w >= 0) { snprintf(num, sizeof(num), "%d", w); }
    snprintf(f, sizeof(f), "%s%%%s%ss%s", fr[0], fl, num, fr[1]);
    char * t = malloc(n + 1); memcpy(t, s, n + 1);
    unsigned long long a[5] = {(uintptr_t) t, 1, 2, 3, 4};
    all(format(f), a);
    mc_state(mc_mix(n, w));
}
static void char_run(void) {
    int c = mc_choose(256); const char * const * fr = frames[mc_choose(3)];
    char f[64];
    snprintf(f, sizeof(f), "%s%%c%s", fr[0], fr[1]);
    unsigned long long a[5] = {c, 1, 2, 3, 4};
    all(format(f), a);
    snprintf(f, sizeof(f), "%sx%s", fr[0], fr[1]);
    if (c && c != '%') { f[strlen(fr[0])] = (char) c; all(format(f), a); }
    mc_state(c);
}
static void pointer_run(void) {
    unsigned long long v = (unsigned long long []) {1, 0x10, 0xdeadbeef, 0x7fffffffffff, 0xffffffffffffffff, 0x8000000000000000}[mc_choose(6)];
    char f[64]; int w = widths[mc_choose(32)]; char num[16] = "";
    if (w >= 0) { snprintf(num, sizeof(num), "%d", w); }
    snprintf(f, sizeof(f), "[%%%s%sp]", mc_choose(2) ? "-" : "", num);
    unsigned long long a[5] = {v, 1, 2, 3, 4};
    all(format(f), a);
}
/* several directives: each takes its own argument, no flag of one reaches the next */
static const char * parts[] = {"%d", "%5u", "%-6d", "%08x", "%#X", "%s", "%-4s", "%c", "%ld", "%016llX", "%%", "%zu", "text ", "%7s", "%o", "%#10x"};
static const int kind[] = {1, 1, 1, 1, 1, 2, 2, 3, 1, 1, 0, 1, 0, 2, 1, 1};
static void mixed_run(void) {
    char f[128] = ""; unsigned long long a[5] = {77, 77, 77, 77, 77}; int na = 0, n = 1 + mc_choose(mc_tier(3, 4)), neg = mc_choose(2);
    for (int i = 0; i < n; ++i) {
        int k = mc_choose(16);
        strcat(f, parts[k]);
        if (kind[k] == 1) { a[na] = neg ? (unsigned long long) (-3ll - na * 1000) : 5ull + na * 70000; ++na; }
        if (kind[k] == 2) { a[na] = (uintptr_t) (const char * []) {"", "ab", "longer text", "q"}[na]; ++na; }
        if (kind[k] == 3) { a[na] = 'A' + na; ++na; }
    }
    all(format(f), a);
    mc_state(mc_hash(1, f, strlen(f)));
}
/* a format that ends inside a directive */
static void cut_run(void) {
    static const char * tails[] = {"%", "%-", "%0", "%#", "%5", "%12", "%l", "%ll", "%z", "%.", "%.3", "%-08", "%-3l"};
    char f[64]; const char * pre = (const char * []) {"", "abc", "%u,"}[mc_choose(3)], * t = tails[mc_choose(13)];
    snprintf(f, sizeof(f), "%s%s", pre, t);
    unsigned long long a[5] = {42, 1, 2, 3, 4};
    int n = snprintf(want, CAP, pre, ARGS);
    char * g = format(f);
    mc_op("'%s'", g);
    for (int how = 0; how < 6; ++how) { compare(how, CAP, g, a, n); }
}
/* every size of the destination */
static void size_run(void) {
    static const char * fs[] = {"", "a", "%d", "%20d|", "%s", "%-30s", "%c%c%c", "%llu%llu%llu"};
    char * g = format(fs[mc_choose(8)]);
    unsigned long long a[5] = {65, 66, 67, 68, 69};
    if (strchr(g, 's')) { a[0] = (uintptr_t) "sixteen letters."; }
    int n = snprintf(want, CAP, g, ARGS), size = mc_choose(64), how = mc_choose(2);
    mc_op("'%s' into %d", g, size);
    char * d = malloc(size + 1);
    memset(d, 0x5a, size + 1);
    int r = how ? vs(size ? d : 0, size, g, ARGS) : tfp_snprintf(size ? d : 0, size, g, ARGS);
    if (size) {
        int len = n < size ? n : size - 1;
        mc_check(r == n, "returned %d, expected %d", r, n);
        mc_check(!memcmp(d, want, len) && d[len] == 0, "gave '%.*s'", len, d);
    }
    mc_check(d[size] == 0x5a, "wrote behind the end");
    free(d);
    mc_state(mc_mix(n, size));
}
/* the format macros of embc/inttypes.h */
static void macros_run(void) {
    static const char * ms[] = {"<%" PRIdS ">", "<%" PRIuS ">", "<%" PRIxS ">", "<%" PRIXS ">", "<%" PRIoS ">", "<%12" PRIuS ">"};
    static const char * cs[] = {"<%ld>", "<%lu>", "<%lx>", "<%lX>", "<%lo>", "<%12lu>"};
    values();
    int k = mc_choose(6);
    for (int i = 0; i < nval; ++i) {
        int n = snprintf(want, CAP, cs[k], vals[i]), r = snprintf(got, CAP, ms[k], (size_t) vals[i]);
        mc_op("%s of 0x%llx", ms[k], vals[i]);
        mc_check(r == n && !strcmp(got, want), "gave '%s', expected '%s'", got, want);
        r = tfp_snprintf(got, CAP, ms[k], (size_t) vals[i]);
        mc_check(r == n && !strcmp(got, want), "tinyprintf gave '%s', expected '%s'", got, want);
    }
}
/* an output function that formats text itself */
static struct { int at, n, depth; char in[8][48]; int nin; } N;
static void nested_put(void * p, char c) {
    mc_check(p == &N, "output function called with another pointer");
    if (N.n == N.at && N.depth < 2) {
        ++N.depth;
        mc_op("formats inside the output of character %d", N.n);
        int k = mc_choose(3); char b[48];
        if (k == 0) { tfp_snprintf(b, sizeof(b), "[%08lx %d %s]", 0x1234abcdul, -77, "inner"); }
        else if (k == 1) { tfp_sprintf(b, "%c%u", 'q', 4000000000u); }
        else { init_printf(&sink, put); sink = (struct sink) {0, b}; tfp_printf("%5d|%-6s|", 42, "ab"); b[sink.n] = 0; }
        static const char * const w[] = {"[1234abcd -77 inner]", "q4000000000", "   42|ab    |"};
        mc_check(!strcmp(b, w[k]), "the inner text is '%s', expected '%s'", b, w[k]);
    }
    got[N.n++] = c;
}
static void nested_fm(const char * f, ...) { va_list a; va_start(a, f); tfp_format(&N, nested_put, f, a); va_end(a); }
static void nested_run(void) {
    static const char * const fs[] = {"%d|%08x|%s", "%12d/%-4x/%3s.", "%o%X%s%%"};
    const char * f = fs[mc_choose(3)];
    N.n = N.depth = 0;
    int n = snprintf(want, CAP, f, -12345678, 0xbeef01u, "outer text");
    N.at = mc_choose(n);
    nested_fm(f, -12345678, 0xbeef01u, "outer text");
    got[N.n] = 0;
    mc_check(N.n == n && !strcmp(got, want), "'%s' gave '%s', expected '%s'", f, got, want);
    mc_state(mc_mix(N.at, n));
}
static const struct mc_scenario c42[] = {
    {"nested", nested_run, 0, 0, 0, 0},
    {"integers", integer_run, 0, 0, 0, 0}, {"text", text_run, 0, 0, 0, 0}, {"characters", char_run, 0, 0, 0, 0}, {"pointers", pointer_run, 0, 0, 0, 0},
    {"mixed", mixed_run, 0, 0, 0, 0}, {"cut formats", cut_run, 0, 0, 0, 0}, {"sizes", size_run, 0, 0, 0, 0}, {"macros", macros_run, 0, 0, 0, 0}, {0}
};
const struct mc_property mc_properties[] = {
    {"C42", c42},
    {0}
};
