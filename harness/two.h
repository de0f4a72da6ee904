/* Two instances do not influence each other: in every interleaving of two
 * short scripts, each instance answers as its script does alone. */
#ifndef TWO_H_
#define TWO_H_
#include "mc.h"

struct two_s {
    int scripts;
    int steps;                              /* step 0 creates the instance, the last one ends it */
    void (*step)(int i, int script, int k);
};
static int64_t two_log[2][2048];            /* answers of each script run alone */
static int two_n[2], two_at[2], two_i, two_mixed, two_now[2];

static void two_put(int64_t v) {
    int i = two_i;
    if (!two_mixed) { mc_check(two_n[i] < 2048, "runaway output"); two_log[i][two_n[i]++] = v; return; }
    mc_check(two_at[i] < two_n[i] && two_log[i][two_at[i]] == v, "instance %d, step %d: answer %d is %lld, but %lld when the other instance is not used",
        i, two_now[i], two_at[i], (long long) v, (long long) (two_at[i] < two_n[i] ? two_log[i][two_at[i]] : -1));
    ++two_at[i];
}
static void two_bytes(const void * p, int n) {
    uint64_t h = 5381;
    for (int i = 0; i < n; ++i) { h = h * 131 + ((const uint8_t *) p)[i]; }
    two_put(n); two_put((int64_t) h);
}
static void two_run_(const struct two_s * w) {
    int s[2]; s[0] = mc_choose(w->scripts); s[1] = mc_choose(w->scripts);
    two_n[0] = two_n[1] = two_at[0] = two_at[1] = two_mixed = 0;
    for (two_i = 0; two_i < 2; ++two_i) { for (int k = 0; k < w->steps; ++k) { two_now[two_i] = k; w->step(two_i, s[two_i], k); } }
    two_mixed = 1;
    int p[2] = {0, 0};
    while (p[0] < w->steps || p[1] < w->steps) {
        two_i = p[0] >= w->steps ? 1 : p[1] >= w->steps ? 0 : mc_choose(2);
        mc_op("instance %d: step %d of script %d", two_i, p[two_i], s[two_i]);
        two_now[two_i] = p[two_i];
        w->step(two_i, s[two_i], p[two_i]++);
        mc_state(mc_mix(mc_mix(s[0] * 16 + s[1], p[0] * 64 + p[1]), two_at[0] * 4096 + two_at[1]));
    }
    for (int i = 0; i < 2; ++i) { mc_check(two_at[i] == two_n[i], "instance %d gave %d answers, but %d when the other instance is not used", i, two_at[i], two_n[i]); }
}
#endif
