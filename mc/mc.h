/*
 * mc.h - a small stateless model checker for sequential / event-driven C code.
 *
 * A harness is a program that drives the real code and consults mc_choose()
 * for every nondeterministic decision (next operation, argument, environment
 * answer, fault, delivery order).  The explorer re-executes the harness from
 * scratch for every choice vector, in lexicographic depth-first order, until
 * every vector within the bounds has been executed.  Work is split over
 * forked processes by choice prefix.
 *
 * All writable static data of the code under test is restored to its initial
 * value before every execution, and heap blocks are tracked and reclaimed, so
 * that an execution depends on its choice vector only.
 */
#ifndef MC_H_
#define MC_H_

#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <setjmp.h>

#define MC_MAX_CHOICES 6000

struct mc_scenario {
    const char * name;
    void (*run)(void);
    int dev_quick;      /* deviation budget at the quick tier */
    int dev_thorough;   /* deviation budget at the thorough tier */
    int arg;            /* free for the harness: mc_arg */
    int tier;           /* 0: both tiers, 1: thorough only, -1: quick only */
};

struct mc_property {
    const char * id;
    const struct mc_scenario * scenarios; /* terminated by name == 0 */
};

/* Provided by the harness: terminated by id == 0. */
extern const struct mc_property mc_properties[];

extern int mc_thorough;     /* 1 at the thorough tier */
extern int mc_arg;          /* arg of the scenario being run */
extern int mc_tracing;      /* 1 while an execution is being written out */
extern int mc_faults;       /* embc_fatal calls seen in this execution */
extern char mc_fatal_msg[256];

/* Harness statics are reset before every execution, except those marked MC_KEEP. */
#define MC_KEEP __attribute__((section("mckeep")))

/* Nondeterministic choice in 0..n-1. */
int mc_choose(int n);
/* Choice whose alternatives other than 0 cost one deviation. */
int mc_dev(int n);
/* Deviations left in this execution. */
int mc_dev_left(void);
static inline int mc_bool(void) { return mc_choose(2); }
/* Value depending on the tier. */
static inline int mc_tier(int quick, int thorough) { return mc_thorough ? thorough : quick; }

/* End this execution: it is not a behaviour of interest (infeasible choice). */
void mc_prune(void) __attribute__((noreturn));
/* Report a violation. */
void mc_fail(const char * fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
/* Report a violation of a known finding: prunes the execution if listed. */
void mc_fail_key(const char * key, const char * fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
/* A message added to a later violation report (the current operation). */
void mc_trace_(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_transition_(void);
void mc_count(uint64_t transitions); /* transitions made in an inner loop */
void mc_tick(void);                  /* progress in a long inner loop */

/* One operation on the code under test (one transition). */
#define mc_op(...) do { mc_transition_(); if (mc_tracing) mc_trace_(__VA_ARGS__); } while (0)
/* A remark in the trace. */
#define mc_note(...) do { if (mc_tracing) mc_trace_(__VA_ARGS__); } while (0)
#define mc_check(cond, ...) do { if (!(cond)) mc_fail(__VA_ARGS__); } while (0)

/* Record a reference-model state (hash of its canonical form). */
void mc_state(uint64_t hash);
static inline uint64_t mc_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
uint64_t mc_hash(uint64_t h, const void * p, size_t n);

/* Heap of the code under test. */
void * mc_malloc(size_t n);
void mc_free(void * p);
long mc_outstanding(void);       /* live blocks */
void mc_alloc_fail_after(long n); /* let n more allocations succeed, -1: all */

/*
 * Run a statement and learn whether the code under test raised a fatal error:
 *   if (MC_FATAL(embc_foo(x))) ...
 */
extern sigjmp_buf * mc_try_buf;
#define MC_FATAL(stmt) __extension__ ({ \
    sigjmp_buf mc_jb__; \
    sigjmp_buf * volatile mc_prev__ = mc_try_buf; \
    volatile int mc_rv__ = 0; \
    if (0 == sigsetjmp(mc_jb__, 0)) { mc_try_buf = &mc_jb__; stmt; } \
    else { mc_rv__ = 1; } \
    mc_try_buf = mc_prev__; \
    mc_rv__; })

#endif
