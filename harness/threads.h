/* Helpers of the multi-threaded harnesses: schedule noise, progress watch. */
#ifndef VERIF_THREADS_H
#define VERIF_THREADS_H

#include "hk.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>

static unsigned noise_level_g;       /* 0: none */
static __thread uint64_t noise_s_g;
static uint64_t noise_seed_g;

static inline __attribute__((no_sanitize("thread")))
uint64_t noise_next(void)
{
    uint64_t x = noise_s_g;

    if (!x) {
        x = noise_seed_g ^ ((uint64_t)(uintptr_t)&noise_s_g << 7)
          ^ 0x9e3779b97f4a7c15ULL;
        x |= 1;
    }
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    noise_s_g = x;
    return x;
}

__attribute__((no_sanitize("thread"), visibility("default")))
void hk_noise(void)
{
    unsigned lvl = noise_level_g;
    uint64_t r;

    if (!lvl) {
        return;
    }
    r = noise_next();
    if ((r & 0xfff) < lvl) {
        struct timespec ts = { 0, 1000 + ((r >> 16) & 0x1ffff) };

        nanosleep(&ts, NULL);
    } else
    if ((r & 0xfff) < 8 * lvl) {
        sched_yield();
    } else
    if ((r & 0xfff) < 64 * lvl) {
        for (volatile unsigned i = (r >> 16) & 0xff; i; i--) {
        }
    }
}

/* progress watch: no progress for a long while is a violation */
static uint64_t progress_g;
static int watch_on_g;
static const char *volatile watch_key_g = "hang";
#define WATCH_SECS 120

static inline void progress(void)
{
    __atomic_add_fetch(&progress_g, 1, __ATOMIC_RELAXED);
}

static void *watch_main(void *arg)
{
    uint64_t last = 0;
    int n = 0;

    for (;;) {
        uint64_t cur;

        usleep(500 * 1000);
        cur = __atomic_load_n(&progress_g, __ATOMIC_RELAXED);
        if (cur != last || !__atomic_load_n(&watch_on_g, __ATOMIC_RELAXED)) {
            last = cur;
            n = 0;
        } else
        if (++n > WATCH_SECS * 2) {
            hk_violation(watch_key_g, "no progress for %d seconds",
                         WATCH_SECS);
        }
    }
    return NULL;
}

static inline void watch_start(void)
{
    pthread_t t;
    pthread_attr_t a;

    pthread_attr_init(&a);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    pthread_create(&t, &a, watch_main, NULL);
}

static inline void watch(bool on, const char *key)
{
    progress();
    if (key) {
        watch_key_g = key;
    }
    __atomic_store_n(&watch_on_g, on, __ATOMIC_RELAXED);
}

/* random little work, from any thread */
static inline void any_work(hk_rng_t *r, unsigned lvl)
{
    switch (hk_rs_below(r, 8 + lvl)) {
      case 0:
        sched_yield();
        break;
      case 1:
        for (volatile unsigned i = hk_rs_below(r, 2000); i; i--) {
        }
        break;
      case 2:
        if (hk_rs_below(r, 16) == 0) {
            usleep(hk_rs_below(r, 200));
        }
        break;
      default:
        break;
    }
}

#endif
