#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include "hk.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef sprintf
#undef snprintf
#undef vsnprintf
#undef fprintf
#undef printf

int hk_thorough_g;
int hk_worker_g;
int hk_nworkers_g = 1;
const char *hk_scratch_g = "/tmp";
uint64_t hk_case_seed_g;
const char *hk_arg_g;
hk_rng_t hk_rng_g;

static uint64_t seed_g = 1;
static const char *out_g;
static const char *status_path_g;
static const char *only_sc_g;
static uint64_t only_case_g;
static int have_case_g;
static double scale_g = 1.;
static double budget_g;

static const char *cur_sc_g = "-";
static uint64_t cur_idx_g;

static uint64_t events_g;
static uint64_t cases_g;
static int truncated_g;

/* {{{ status page: survives any crash of the worker */

static char *status_g;
#define STATUS_SZ  65536

static void status_line(const char *s)
{
    if (status_g) {
        snprintf(status_g, 512, "%s", s);
    }
}

/* }}} */
/* {{{ PRNG */

static uint64_t splitmix(uint64_t *x)
{
    uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);

    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

void hk_rng_seed(hk_rng_t *r, uint64_t seed)
{
    r->s[0] = splitmix(&seed);
    r->s[1] = splitmix(&seed);
}

uint64_t hk_rng_next(hk_rng_t *r)
{
    uint64_t s1 = r->s[0];
    const uint64_t s0 = r->s[1];
    const uint64_t res = s0 + s1;

    r->s[0] = s0;
    s1 ^= s1 << 23;
    r->s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return res;
}

uint64_t hk_u64_edgy(void)
{
    switch (hk_below(6)) {
      case 0: return hk_below(4);
      case 1: { /* around a power of two */
        uint64_t b = 1ULL << hk_below(64);
        return b + hk_below(5) - 2;
      }
      case 2: { /* around a power of two boundary of the usual types */
        static const uint8_t w[] = { 7, 8, 15, 16, 31, 32, 63, 0 };
        uint64_t b = 1ULL << w[hk_below(8)];
        return b + hk_below(3) - 1;
      }
      case 3: return 0 - hk_below(4);
      case 4: return hk_rand() >> hk_below(64);
      default: return hk_below(1000);
    }
}

int64_t hk_i64_edgy(void)
{
    int64_t v = (int64_t)hk_u64_edgy();
    return hk_chance(1, 2) ? v : (int64_t)(0 - (uint64_t)v);
}

double hk_double_edgy(void)
{
    switch (hk_below(7)) {
      case 0: return (double)(int64_t)hk_i64_edgy();
      case 1: return (double)hk_range(-1000, 1000) / 8.;
      case 2: return (double)hk_range(-100000, 100000) / 1000.;
      case 3: {
        static const double t[] = {
            0., -0., 1., -1., 1e-300, 1e300, 2.2250738585072014e-308,
            4.9406564584124654e-324, 1.7976931348623157e308, 0.1, 1e22, 1e23,
            123456789012345678., 5e-324, 9007199254740993.,
        };
        return t[hk_below(sizeof(t) / sizeof(t[0]))];
      }
      default: {
        union { double d; uint64_t u; } x;
        do {
            x.u = hk_rand();
        } while (((x.u >> 52) & 0x7ff) == 0x7ff);
        return x.d;
      }
    }
}

size_t hk_size_edgy(size_t max)
{
    size_t r;

    if (!max) {
        return 0;
    }
    switch (hk_below(8)) {
      case 0: r = 0; break;
      case 1: r = 1 + hk_below(3); break;
      case 2: r = hk_below(20); break;
      case 3: r = hk_below(70); break;
      case 4: r = (1ULL << hk_below(20)) + hk_below(3) - 1; break;
      case 5: r = hk_below(max + 1); break;
      default: r = hk_below(40); break;
    }
    return r > max ? (r % (max + 1)) : r;
}

void hk_fill(void *p, size_t len)
{
    uint8_t *b = p;

    for (size_t i = 0; i < len; i++) {
        b[i] = (uint8_t)(hk_rand() >> 24);
    }
}

void *hk_exact(const void *p, size_t len)
{
    char *r = malloc(len ? len : 1);

    if (len) {
        memcpy(r, p, len);
    }
    return r;
}

char *hk_bytes(size_t len)
{
    char *r = malloc(len ? len : 1);
    int mode = (int)hk_below(6);

    for (size_t i = 0; i < len; i++) {
        switch (mode) {
          case 0: r[i] = (char)hk_below(256); break;
          case 1: r[i] = (char)('a' + hk_below(4)); break;
          case 2: r[i] = (char)(32 + hk_below(95)); break;
          case 3: r[i] = "\0\xff\x80 \n\r\t\"'\\&<>%=;,:{}[]#@!|*"[hk_below(28)]; break;
          case 4: r[i] = (char)("0123456789+-eE.xX "[hk_below(18)]); break;
          default: r[i] = hk_chance(1, 8) ? (char)hk_below(256)
                                          : (char)(32 + hk_below(95)); break;
        }
    }
    return r;
}

size_t hk_utf8(char *buf, size_t len)
{
    size_t p = 0;
    int mode = (int)hk_below(4);

    while (p < len) {
        uint32_t c;

        switch (mode == 3 ? hk_below(5) : (uint64_t)mode) {
          case 0: c = 32 + (uint32_t)hk_below(95); break;
          case 1: c = (uint32_t)("\"\\/\b\n\r\t&<>'#: -{}[],!|*@%$~="[hk_below(29)]); break;
          case 2: c = 0xa0 + (uint32_t)hk_below(0x700); break;
          case 3: c = 0x800 + (uint32_t)hk_below(0xd000); break;
          default: c = 0x10000 + (uint32_t)hk_below(0x10000); break;
        }
        if (c < 0x80) {
            buf[p++] = (char)c;
        } else
        if (c < 0x800) {
            if (p + 2 > len) break;
            buf[p++] = (char)(0xc0 | (c >> 6));
            buf[p++] = (char)(0x80 | (c & 0x3f));
        } else
        if (c < 0x10000) {
            if (p + 3 > len) break;
            buf[p++] = (char)(0xe0 | (c >> 12));
            buf[p++] = (char)(0x80 | ((c >> 6) & 0x3f));
            buf[p++] = (char)(0x80 | (c & 0x3f));
        } else {
            if (p + 4 > len) break;
            buf[p++] = (char)(0xf0 | (c >> 18));
            buf[p++] = (char)(0x80 | ((c >> 12) & 0x3f));
            buf[p++] = (char)(0x80 | ((c >> 6) & 0x3f));
            buf[p++] = (char)(0x80 | (c & 0x3f));
        }
    }
    return p;
}

uint64_t hk_hash(const void *p, size_t len, uint64_t h)
{
    const uint8_t *b = p;

    h ^= 0xcbf29ce484222325ULL;
    for (size_t i = 0; i < len; i++) {
        h = (h ^ b[i]) * 0x100000001b3ULL;
    }
    return hk_mix(h, len);
}

/* }}} */
/* {{{ observation */

#define DSET_MAX  (1u << 18)
static uint64_t *dset_g;
static size_t dset_cap_g, dset_len_g;
static pthread_mutex_t mtx_g = PTHREAD_MUTEX_INITIALIZER;

void hk_events(uint64_t n)
{
    __atomic_add_fetch(&events_g, n, __ATOMIC_RELAXED);
}

static void dset_insert(uint64_t h)
{
    size_t i = h & (dset_cap_g - 1);

    while (dset_g[i]) {
        if (dset_g[i] == h) {
            return;
        }
        i = (i + 1) & (dset_cap_g - 1);
    }
    dset_g[i] = h;
    dset_len_g++;
}

void hk_distinct(uint64_t h)
{
    if (!h) {
        h = 1;
    }
    pthread_mutex_lock(&mtx_g);
    if (dset_len_g * 2 >= dset_cap_g && dset_cap_g < DSET_MAX) {
        size_t ocap = dset_cap_g;
        uint64_t *o = dset_g;

        dset_cap_g = ocap ? ocap * 2 : 4096;
        dset_g = calloc(dset_cap_g, 8);
        dset_len_g = 0;
        for (size_t i = 0; i < ocap; i++) {
            if (o[i]) {
                dset_insert(o[i]);
            }
        }
        free(o);
    }
    if (dset_len_g * 4 < dset_cap_g * 3) {
        dset_insert(h);
    }
    pthread_mutex_unlock(&mtx_g);
}

#define CNT_MAX  256
static struct { const char *name; uint64_t n; } cnt_g[CNT_MAX];
static int ncnt_g;

void hk_count(const char *name, uint64_t n)
{
    pthread_mutex_lock(&mtx_g);
    for (int i = 0; i < ncnt_g; i++) {
        if (cnt_g[i].name == name || !strcmp(cnt_g[i].name, name)) {
            cnt_g[i].n += n;
            goto end;
        }
    }
    if (ncnt_g < CNT_MAX) {
        cnt_g[ncnt_g].name = strdup(name);
        cnt_g[ncnt_g++].n = n;
    }
  end:
    pthread_mutex_unlock(&mtx_g);
}

#define SAMPLES_MAX  8
static char *samples_g[SAMPLES_MAX];
static int nsamples_g;
static uint64_t sample_calls_g;

void hk_sample(const char *fmt, ...)
{
    char buf[1024];
    va_list va;
    int slot = -1;

    pthread_mutex_lock(&mtx_g);
    sample_calls_g++;
    if (nsamples_g < SAMPLES_MAX) {
        slot = nsamples_g++;
    } else
    if ((sample_calls_g & (sample_calls_g - 1)) == 0) {
        slot = (int)(__builtin_ctzll(sample_calls_g) % SAMPLES_MAX);
    }
    if (slot >= 0) {
        va_start(va, fmt);
        vsnprintf(buf, sizeof(buf), fmt, va);
        va_end(va);
        free(samples_g[slot]);
        samples_g[slot] = strdup(buf);
    }
    pthread_mutex_unlock(&mtx_g);
}

void hk_trace(const char *fmt, ...)
{
    /* the ring lives in the status page, after the first 4k */
    static unsigned pos;
    char buf[256];
    va_list va;
    unsigned p;

    if (!status_g) {
        return;
    }
    va_start(va, fmt);
    vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    p = __atomic_fetch_add(&pos, 1, __ATOMIC_RELAXED);
    snprintf(status_g + 4096 + (p % 224) * 256, 256, "%u %s", p, buf);
}

/* }}} */
/* {{{ output */

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; s && *s; s++) {
        unsigned char c = (unsigned char)*s;

        if (c == '"' || c == '\\') {
            fprintf(f, "\\%c", c);
        } else
        if (c < 32 || c >= 127) {
            fprintf(f, "\\u%04x", c);
        } else {
            fputc(c, f);
        }
    }
    fputc('"', f);
}

static void dump(const char *verdict, const char *key, const char *msg)
{
    FILE *f;
    char dpath[512];

    if (!out_g) {
        return;
    }
    f = fopen(out_g, "w");
    if (!f) {
        return;
    }
    fprintf(f, "{\"verdict\":\"%s\",\"cases\":%llu,\"events\":%llu,"
            "\"distinct\":%zu,\"truncated\":%d,\"scenario\":", verdict,
            (unsigned long long)cases_g, (unsigned long long)__atomic_load_n(&events_g, __ATOMIC_RELAXED),
            dset_len_g, truncated_g);
    jstr(f, cur_sc_g);
    fprintf(f, ",\"case\":%llu,\"case_seed\":%llu,\"key\":",
            (unsigned long long)cur_idx_g,
            (unsigned long long)hk_case_seed_g);
    jstr(f, key);
    fprintf(f, ",\"message\":");
    jstr(f, msg);
    fprintf(f, ",\"counters\":{");
    for (int i = 0; i < ncnt_g; i++) {
        if (i) fputc(',', f);
        jstr(f, cnt_g[i].name);
        fprintf(f, ":%llu", (unsigned long long)cnt_g[i].n);
    }
    fprintf(f, "},\"samples\":[");
    for (int i = 0; i < nsamples_g; i++) {
        if (i) fputc(',', f);
        jstr(f, samples_g[i]);
    }
    fprintf(f, "]}\n");
    fclose(f);
    snprintf(dpath, sizeof(dpath), "%s.distinct", out_g);
    f = fopen(dpath, "w");
    if (f) {
        for (size_t i = 0; i < dset_cap_g; i++) {
            if (dset_g[i]) {
                fwrite(&dset_g[i], 8, 1, f);
            }
        }
        fclose(f);
    }
}

void hk_violation(const char *key, const char *fmt, ...)
{
    static int once;
    char buf[8192];
    va_list va;

    if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) {
        for (;;) {
            pause();
        }
    }
    va_start(va, fmt);
    vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    fprintf(stderr, "HK-VIOLATION key=%s scenario=%s case=%llu seed=%llu\n%s\n",
            key, cur_sc_g, (unsigned long long)cur_idx_g,
            (unsigned long long)hk_case_seed_g, buf);
    fflush(stderr);
    dump("violation", key, buf);
    _exit(10);
}

void hk_error(const char *fmt, ...)
{
    char buf[4096];
    va_list va;

    va_start(va, fmt);
    vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    fprintf(stderr, "HK-ERROR scenario=%s case=%llu: %s\n", cur_sc_g,
            (unsigned long long)cur_idx_g, buf);
    fflush(stderr);
    dump("error", "harness", buf);
    _exit(11);
}

static void hexdump(char *o, size_t osz, const uint8_t *p, size_t len,
                    size_t from)
{
    size_t w = 0;

    for (size_t i = from; i < len && i < from + 64 && w + 4 < osz; i++) {
        w += (size_t)snprintf(o + w, osz - w, "%02x", p[i]);
    }
    o[w] = 0;
}

void hk_check_mem(const char *key, const char *what, const void *got,
                  size_t glen, const void *exp, size_t elen)
{
    const uint8_t *g = got, *e = exp;
    size_t d = 0, m = glen < elen ? glen : elen;
    char h1[256], h2[256];

    hk_events(1);
    if (glen == elen && (!glen || !memcmp(got, exp, glen))) {
        return;
    }
    while (d < m && g[d] == e[d]) {
        d++;
    }
    hexdump(h1, sizeof(h1), g, glen, d > 8 ? d - 8 : 0);
    hexdump(h2, sizeof(h2), e, elen, d > 8 ? d - 8 : 0);
    hk_violation(key, "%s: got %zu bytes, expected %zu, first difference at "
                 "%zu; around it got %s expected %s", what, glen, elen, d,
                 h1, h2);
}

/* }}} */
/* {{{ runner */

static double now(void)
{
    struct timespec ts;

    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static void run_case(const hk_scenario_t *sc, uint64_t idx, uint64_t seed)
{
    char buf[256];

    cur_sc_g = sc->name;
    cur_idx_g = idx;
    hk_case_seed_g = seed;
    hk_rng_seed(&hk_rng_g, seed);
    snprintf(buf, sizeof(buf), "%s %llu %llu", sc->name,
             (unsigned long long)idx, (unsigned long long)seed);
    status_line(buf);
    (*sc->run)();
    cases_g++;
}

int hk_main(int argc, char **argv, const hk_scenario_t *scs, int nb)
{
    double start = now();

    for (int i = 1; i < argc; i++) {
#define ARG(n)  (!strcmp(argv[i], n) && i + 1 < argc)
        if (ARG("--seed")) {
            seed_g = strtoull(argv[++i], NULL, 0);
        } else
        if (ARG("--out")) {
            out_g = argv[++i];
        } else
        if (ARG("--status")) {
            status_path_g = argv[++i];
        } else
        if (ARG("--worker")) {
            hk_worker_g = atoi(argv[++i]);
        } else
        if (ARG("--workers")) {
            hk_nworkers_g = atoi(argv[++i]);
        } else
        if (ARG("--scenario")) {
            only_sc_g = argv[++i];
        } else
        if (ARG("--case-seed")) {
            only_case_g = strtoull(argv[++i], NULL, 0);
            have_case_g = 1;
        } else
        if (ARG("--scratch")) {
            hk_scratch_g = argv[++i];
        } else
        if (ARG("--scale")) {
            scale_g = atof(argv[++i]);
        } else
        if (ARG("--budget")) {
            budget_g = atof(argv[++i]);
        } else
        if (ARG("--arg")) {
            hk_arg_g = argv[++i];
        } else
        if (!strcmp(argv[i], "--thorough")) {
            hk_thorough_g = 1;
        } else
        if (!strcmp(argv[i], "--list")) {
            for (int j = 0; j < nb; j++) {
                printf("%s %u %u\n", scs[j].name, scs[j].quick,
                       scs[j].thorough);
            }
            return 0;
        } else {
            fprintf(stderr, "unknown argument %s\n", argv[i]);
            return 12;
        }
    }
    if (status_path_g) {
        int fd = open(status_path_g, O_RDWR | O_CREAT | O_TRUNC, 0600);

        if (fd >= 0 && ftruncate(fd, STATUS_SZ) == 0) {
            status_g = mmap(NULL, STATUS_SZ, PROT_READ | PROT_WRITE,
                            MAP_SHARED, fd, 0);
            if (status_g == MAP_FAILED) {
                status_g = NULL;
            }
        }
        if (fd >= 0) {
            close(fd);
        }
    }

    for (int j = 0; j < nb; j++) {
        uint64_t n = hk_thorough_g ? scs[j].thorough : scs[j].quick;
        uint64_t sh = hk_hash(scs[j].name, strlen(scs[j].name), seed_g);
        uint64_t done = 0;
        char cname[128];

        if (only_sc_g) {
            /* comma separated list */
            const char *p = only_sc_g;
            size_t l = strlen(scs[j].name);
            int found = 0;

            while (p && *p) {
                if (!strncmp(p, scs[j].name, l)
                &&  (p[l] == 0 || p[l] == ','))
                {
                    found = 1;
                }
                p = strchr(p, ',');
                if (p) p++;
            }
            if (!found) {
                continue;
            }
        }
        if (have_case_g) {
            run_case(&scs[j], 0, only_case_g);
            continue;
        }
        n = (uint64_t)((double)n * scale_g);
        if (n == 0) {
            n = 1;
        }
        for (uint64_t i = (uint64_t)hk_worker_g; i < n;
             i += (uint64_t)hk_nworkers_g)
        {
            if (budget_g > 0
            &&  now() - start > budget_g * (j + 1) / (only_sc_g ? 1 : nb))
            {
                truncated_g = 1;
                break;
            }
            run_case(&scs[j], i, hk_mix(sh, i + 1));
            done++;
        }
        snprintf(cname, sizeof(cname), "cases.%s", scs[j].name);
        hk_count(cname, done);
    }
    status_line("end");
    dump("ok", "", "");
    return 0;
}

/* }}} */
