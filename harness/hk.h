/* Harness kit: PRNG, scenario runner, event counters, verdicts. */
#ifndef VERIF_HK_H
#define VERIF_HK_H

#include <lib-common/core.h>

/* {{{ scenarios */

typedef struct hk_scenario_t {
    const char *name;
    void (*run)(void);
    unsigned quick;      /* number of cases, quick tier    */
    unsigned thorough;   /* number of cases, thorough tier */
} hk_scenario_t;

/* Runs the scenarios; returns the process exit code. */
int hk_main(int argc, char **argv, const hk_scenario_t *scs, int nb);

extern int  hk_thorough_g;
extern int  hk_worker_g;
extern int  hk_nworkers_g;
extern const char *hk_scratch_g;   /* scratch directory of this worker */
extern uint64_t hk_case_seed_g;
extern const char *hk_arg_g;       /* --arg value, or NULL */

/* }}} */
/* {{{ PRNG (per case, replayable; hk_rs for other threads) */

typedef struct hk_rng_t {
    uint64_t s[2];
} hk_rng_t;

extern hk_rng_t hk_rng_g;

void     hk_rng_seed(hk_rng_t *r, uint64_t seed);
uint64_t hk_rng_next(hk_rng_t *r);
static inline uint64_t hk_rs_below(hk_rng_t *r, uint64_t n)
{
    return n ? hk_rng_next(r) % n : 0;
}
static inline uint64_t hk_rand(void) { return hk_rng_next(&hk_rng_g); }
static inline uint64_t hk_below(uint64_t n) { return hk_rs_below(&hk_rng_g, n); }
static inline int64_t hk_range(int64_t lo, int64_t hi)
{
    return (int64_t)((uint64_t)lo
                     + hk_below((uint64_t)hi - (uint64_t)lo + 1));
}
static inline bool hk_chance(unsigned num, unsigned den)
{
    return hk_below(den) < num;
}
/* integer with interesting magnitudes: boundaries, small, random widths */
uint64_t hk_u64_edgy(void);
int64_t  hk_i64_edgy(void);
double   hk_double_edgy(void);         /* finite */
/* size: mostly small, sometimes up to max */
size_t   hk_size_edgy(size_t max);
void     hk_fill(void *p, size_t len);
/* random byte string with mixed alphabets; returns malloc'ed, exact size
 * (so that ASan catches any byte read past the end) */
char    *hk_bytes(size_t len);
void    *hk_exact(const void *p, size_t len);  /* malloc'ed exact copy */
/* valid UTF-8 text of about len bytes into buf, returns length */
size_t   hk_utf8(char *buf, size_t len);

uint64_t hk_hash(const void *p, size_t len, uint64_t h);
static inline uint64_t hk_mix(uint64_t a, uint64_t b)
{
    a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2);
    a *= 0xff51afd7ed558ccdULL;
    return a ^ (a >> 33);
}

/* }}} */
/* {{{ observation */

void hk_events(uint64_t n);               /* monitor events (thread-safe) */
void hk_count(const char *name, uint64_t n);  /* named counter (main thread) */
void hk_distinct(uint64_t h);             /* distinct non-trivial case/state */
void hk_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* a trace line kept in a ring and printed in the witness */
void hk_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* }}} */
/* {{{ verdict */

/* Property violated; key: stable class of the violation */
__attribute__((noreturn, format(printf, 2, 3)))
void hk_violation(const char *key, const char *fmt, ...);

/* The harness itself could not do its job: inconclusive */
__attribute__((noreturn, format(printf, 1, 2)))
void hk_error(const char *fmt, ...);

#define HK_CHECK(cond, key, fmt, ...)                                        \
    do {                                                                     \
        hk_events(1);                                                        \
        if (unlikely(!(cond))) {                                             \
            hk_violation(key, "%s:%d: %s: " fmt, __FILE__, __LINE__, #cond,  \
                         ##__VA_ARGS__);                                     \
        }                                                                    \
    } while (0)

/* memory equality with a readable witness */
void hk_check_mem(const char *key, const char *what, const void *got,
                  size_t glen, const void *exp, size_t elen);

/* }}} */

#endif
