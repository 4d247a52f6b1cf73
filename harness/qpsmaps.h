/* C42: the tries and bitmaps of the store against a sorted array. */

typedef struct ent_t {
    uint32_t key;
    uint32_t pad;
    uint64_t l;
    uint64_t h;
} ent_t;

#define MAP_MAX   40000

typedef struct map_t {
    bool     is_hat;
    bool     is_null;
    bool     stats;
    int      vlen;
    uint32_t handle;

    qhat_t       hat;
    qps_bitmap_t bm;

    /* a path kept by its user across the modifications */
    qhat_path_t  path;
    bool         has_path;

    ent_t   *e;
    int      nb;
    ent_t   *se;            /* state at the last snapshot */
    int      snb;
} map_t;

static map_t maps_g[3];
static int nb_maps_g;

/* {{{ model */

static int m_find(const map_t *m, uint32_t key)
{
    int a = 0, b = m->nb;

    while (a < b) {
        int c = (a + b) / 2;

        if (m->e[c].key < key) {
            a = c + 1;
        } else {
            b = c;
        }
    }
    return a;               /* first one >= key */
}

static ent_t *m_get(const map_t *m, uint32_t key)
{
    int i = m_find(m, key);

    return i < m->nb && m->e[i].key == key ? &m->e[i] : NULL;
}

static ent_t *m_add(map_t *m, uint32_t key)
{
    int i = m_find(m, key);

    if (i < m->nb && m->e[i].key == key) {
        return &m->e[i];
    }
    (memmove)(&m->e[i + 1], &m->e[i], (m->nb - i) * sizeof(ent_t));
    m->nb++;
    m->e[i] = (ent_t){ .key = key };
    return &m->e[i];
}

static void m_del(map_t *m, uint32_t key)
{
    int i = m_find(m, key);

    if (i < m->nb && m->e[i].key == key) {
        (memmove)(&m->e[i], &m->e[i + 1],
                  (m->nb - i - 1) * sizeof(ent_t));
        m->nb--;
    }
}

/* }}} */
/* {{{ keys */

typedef struct region_t {
    uint32_t base;
    uint32_t len;
    uint32_t stride;
} region_t;

static region_t regions_g[6];
static int nb_regions_g;

static uint32_t gen_base(void)
{
    switch (hk_below(6)) {
      case 0:  return 0;
      case 1:  return UINT32_MAX - hk_below(5000);
      case 2:  return (1u << hk_below(32)) - hk_below(40);
      case 3:  return (hk_rand() << 15) - hk_below(3);
      case 4:  return hk_rand() & ~1023u;
      default: return hk_rand();
    }
}

static void gen_regions(void)
{
    nb_regions_g = 1 + hk_below(countof(regions_g));
    for (int i = 0; i < nb_regions_g; i++) {
        region_t *r = &regions_g[i];

        r->base = i && hk_chance(1, 3)
                ? regions_g[i - 1].base + hk_below(5000) : gen_base();
        r->len = 1 + hk_below(hk_chance(1, 2) ? 50 : 6000);
        switch (hk_below(6)) {
          case 0:  r->stride = 1 + hk_below(20); break;
          case 1:  r->stride = 1u << hk_below(32); break;
          case 2:  r->stride = hk_rand() | 1; break;
          default: r->stride = 1; break;
        }
    }
}

static uint32_t region_key(const region_t *r, uint32_t i)
{
    return r->base + i * r->stride;
}

static uint32_t gen_key(const map_t *m)
{
    if (m->nb && hk_chance(1, 2)) {
        uint32_t k = m->e[hk_below(m->nb)].key;

        return hk_chance(1, 2) ? k : k + hk_range(-2, 2);
    }
    if (hk_chance(1, 10)) {
        return hk_chance(1, 3) ? UINT32_MAX : hk_rand();
    }
    {
        const region_t *r = &regions_g[hk_below(nb_regions_g)];

        return region_key(r, hk_below(r->len));
    }
}

/* }}} */
/* {{{ operations */

static bool dbg_g;
static uint64_t opno_g;
#define DBG(fmt, ...)  do { if (dbg_g) { (fprintf)(stderr, "%ju m%d " fmt "\n", (uintmax_t)opno_g, (int)(m - maps_g), ##__VA_ARGS__); } } while (0)

static void mp_check(map_t *m, const char *when);

static void val_set(map_t *m, ent_t *e, void *p)
{
    byte buf[16];
    uint64_t l = hk_rand();
    uint64_t h = hk_chance(1, 4) ? 0 : hk_rand();

    if (hk_chance(1, 4)) {
        l = 1ull << hk_below(8 * MIN(m->vlen, 8));
    }
    if (m->vlen < 8) {
        l &= (1ull << (8 * m->vlen)) - 1;
    }
    if (m->vlen < 16) {
        h = 0;
    }
    if (!l && !h) {
        l = 1;
    }
    e->l = l;
    e->h = h;
    (memcpy)(buf, &l, 8);
    (memcpy)(buf + 8, &h, 8);
    (memcpy)(p, buf, m->vlen);
}

static void val_check(const map_t *m, uint32_t key, const void *p,
                      const ent_t *e, const char *what)
{
    byte buf[16] = { 0 };

    if (e) {
        (memcpy)(buf, &e->l, 8);
        (memcpy)(buf + 8, &e->h, 8);
    }
    sh_g->events++;
    if ((memcmp)(p, buf, m->vlen)) {
        hk_violation("map-value", "%s: key %u: value %016jx of %d bytes "
                     "instead of %016jx", what, key,
                     (uintmax_t)(*(byte *)p), m->vlen,
                     (uintmax_t)(e ? e->l : 0));
    }
}

static void mp_get(map_t *m, uint32_t key)
{
    const ent_t *e = m_get(m, key);

    sh_g->events++;
    if (m->is_hat) {
        const void *p;

        if (m->has_path && hk_chance(1, 5)) {
            key = m->path.key;
            e = m_get(m, key);
            p = qhat_get_path(&m->path);
        } else {
            p = qhat_get(&m->hat, key);
        }
        if (m->is_null) {
            if (!p != !e) {
                hk_violation("map-get", "key %u: %s instead of %s", key,
                             p ? "set" : "null", e ? "set" : "null");
            }
            if (qhat_is_null(&m->hat, key) != !e) {
                hk_violation("map-null", "key %u", key);
            }
        } else {
            if (!p && e) {
                hk_violation("map-get", "key %u lost", key);
            }
            if (qhat_is_null(&m->hat, key)) {
                hk_violation("map-null", "key %u", key);
            }
        }
        if (p) {
            val_check(m, key, p, e, "get");
        }
    } else {
        qps_bitmap_state_t s = qps_bitmap_get(&m->bm, key);
        qps_bitmap_state_t want = e ? (e->l ? QPS_BITMAP_1 : QPS_BITMAP_0)
                                : m->is_null ? QPS_BITMAP_NULL
                                : QPS_BITMAP_0;

        if (s != want) {
            hk_violation("bitmap-get", "key %u: %d instead of %d", key, s,
                         want);
        }
    }
}

static void bm_prev(const map_t *m, uint32_t key, qps_bitmap_state_t s,
                    const char *what)
{
    const ent_t *e = m_get(m, key);
    qps_bitmap_state_t want = e ? (e->l ? QPS_BITMAP_1 : QPS_BITMAP_0)
                            : m->is_null ? QPS_BITMAP_NULL : QPS_BITMAP_0;

    sh_g->events++;
    if (s != want) {
        hk_violation("bitmap-prev", "%s of key %u: previous state %d instead "
                     "of %d", what, key, s, want);
    }
}

static void mp_set(map_t *m, uint32_t key)
{
    if (m->nb == MAP_MAX) {
        return;
    }
    sh_g->writes++;
    opno_g++;
    DBG("set %u", key);
    if (m->is_hat) {
        ent_t *e;
        byte *p;

        if (m->has_path && hk_chance(1, 10)) {
            key = m->path.key;
            e = m_get(m, key);
            p = qhat_set_path(&m->path);
            m->has_path = false;
        } else {
            e = m_get(m, key);
            p = qhat_set(&m->hat, key);
        }
        if (!p) {
            hk_violation("map-set", "key %u", key);
        }
        val_check(m, key, p, e, "before a set");
        val_set(m, m_add(m, key), p);
    } else {
        bm_prev(m, key, qps_bitmap_set(&m->bm, key), "set");
        m_add(m, key)->l = 1;
    }
}

static void mp_set0(map_t *m, uint32_t key)
{
    const ent_t *e = m_get(m, key);

    if (m->nb == MAP_MAX) {
        return;
    }
    sh_g->writes++;
    opno_g++;
    DBG("set0 %u", key);
    if (m->is_hat) {
        qhat_128_t old;
        bool get = hk_chance(1, 2);

        (memset)(&old, 0xee, sizeof(old));
        qhat_set0(&m->hat, key, get ? &old : NULL);
        if (get && (e || !m->is_null)) {
            val_check(m, key, &old, e, "old value of a set0");
        }
        if (m->is_null) {
            ent_t *n = m_add(m, key);

            n->l = n->h = 0;
        } else {
            m_del(m, key);
        }
    } else {
        bm_prev(m, key, qps_bitmap_reset(&m->bm, key), "reset");
        if (m->is_null) {
            m_add(m, key)->l = 0;
        } else {
            m_del(m, key);
        }
    }
}

static void mp_del(map_t *m, uint32_t key)
{
    const ent_t *e = m_get(m, key);

    sh_g->writes++;
    opno_g++;
    DBG("del %u", key);
    if (m->is_hat) {
        qhat_128_t old;
        bool get = hk_chance(1, 2);
        bool r;

        (memset)(&old, 0xee, sizeof(old));
        if (m->has_path && hk_chance(1, 10)) {
            key = m->path.key;
            e = m_get(m, key);
            r = qhat_remove_path(&m->path, get ? &old : NULL);
            /* "don't cache this path after a set or a remove" */
            m->has_path = false;
        } else {
            r = qhat_remove(&m->hat, key, get ? &old : NULL);
        }
        if (r != !!e) {
            hk_violation("map-remove", "key %u: %d", key, r);
        }
        if (get) {
            val_check(m, key, &old, e, "old value of a removal");
        }
    } else {
        bm_prev(m, key, qps_bitmap_remove(&m->bm, key), "removal");
    }
    m_del(m, key);
}

static void mp_path(map_t *m)
{
    if (!m->is_hat) {
        return;
    }
    qhat_path_init(&m->path, &m->hat, gen_key(m));
    m->has_path = true;
    if (hk_chance(1, 2)) {
        qhat_get_path(&m->path);
    }
}

static void mp_any(map_t *m)
{
    uint32_t key = gen_key(m);

    switch (hk_below(10)) {
      case 0: case 1: case 2: case 3:
        mp_set(m, key);
        break;
      case 4:
        mp_set0(m, key);
        break;
      case 5: case 6: case 7:
        mp_del(m, key);
        break;
      default:
        mp_get(m, key);
        break;
    }
}

static void mp_run(map_t *m)
{
    const region_t *r = &regions_g[hk_below(nb_regions_g)];
    uint32_t from = hk_below(r->len);
    uint32_t nb = 1 + hk_below(r->len);
    int what = hk_below(10);
    int order = hk_below(3);
    int keep = hk_chance(1, 2) ? 0 : 1 + hk_below(30);

    for (uint32_t i = 0; i < nb; i++) {
        uint32_t j = order == 0 ? i : order == 1 ? nb - 1 - i : hk_below(nb);
        uint32_t key = region_key(r, (from + j) % r->len);

        if (keep && hk_below(keep) == 0) {
            continue;
        }
        if (what < 5) {
            mp_set(m, key);
        } else
        if (what < 6) {
            mp_set0(m, key);
        } else {
            mp_del(m, key);
        }
    }
}

/* }}} */
/* {{{ enumeration */

static void en_check(const map_t *m, bool end, uint32_t key, bool has_from,
                     uint64_t from, const char *what)
{
    int i;

    sh_g->events++;
    if (has_from && from > UINT32_MAX) {
        i = m->nb;
    } else {
        i = m_find(m, has_from ? from : 0);
    }
    if (end != (i == m->nb)) {
        hk_violation("map-enum", "%s from %ju: %s, %d keys follow (first %u)",
                     what, (uintmax_t)from, end ? "end" : "not the end",
                     m->nb - i, i < m->nb ? m->e[i].key : 0);
    }
    if (!end && key != m->e[i].key) {
        hk_violation("map-enum", "%s from %ju: key %u instead of %u", what,
                     (uintmax_t)from, key, m->e[i].key);
    }
}

static void mp_enum_hat(map_t *m)
{
    bool at = hk_chance(1, 2);
    bool modify = hk_chance(1, 2);
    uint32_t start = gen_key(m);
    qhat_enumerator_t en = at ? qhat_get_enumerator_at(&m->hat, start)
                              : qhat_get_enumerator(&m->hat);
    int changes = hk_below(4) ? 1 + hk_below(40) : 2000;
    int steps = 0;
    int max = hk_chance(1, 3) ? hk_below(50) : INT_MAX;

    sh_g->enums++;
    en_check(m, en.end, en.key, true, at ? start : 0, "start");
    while (!en.end && steps++ < max) {
        uint64_t cur = en.key;
        bool changed = false;

        if (modify && hk_below(changes) == 0) {
            for (int i = 1 + hk_below(3); i-- > 0; ) {
                switch (hk_below(6)) {
                  case 0:  mp_del(m, cur); break;
                  case 1:  mp_set(m, cur + hk_range(-3, 3)); break;
                  case 2:  mp_del(m, cur + hk_range(-3, 3)); break;
                  case 3:  mp_set0(m, cur + hk_range(-1, 1)); break;
                  case 4:
                    if (hk_chance(1, 20)) {
                        mp_run(m);
                    }
                    break;
                  default: mp_any(m); break;
                }
            }
            changed = true;
        }
        if (m_get(m, cur) && hk_chance(3, 4)) {
            const void *p;

            if (modify || hk_chance(1, 2)) {
                p = qhat_enumerator_get_value_safe(&en);
            } else {
                p = qhat_enumerator_get_value_unsafe(&en);
            }
            if (en.key != cur || !p) {
                hk_violation("map-enum", "value of key %ju: %p, key %u",
                             (uintmax_t)cur, p, en.key);
            }
            val_check(m, cur, p, m_get(m, cur), "enumeration");
        }
        if (hk_chance(1, 40) && !changed) {
            qhat_path_t path = qhat_enumerator_get_path(&en);
            const void *p = qhat_get_path(&path);

            if (path.key != cur || !p) {
                hk_violation("map-enum-path", "key %u", path.key);
            }
            val_check(m, cur, p, m_get(m, cur), "path of an enumerator");
        }
        if (hk_chance(1, 10)) {
            uint64_t to = hk_chance(1, 2) ? cur + hk_below(5)
                        : hk_chance(1, 2) ? cur + hk_below(5000)
                        : (uint32_t)gen_key(m);

            if (to >= cur && to <= UINT32_MAX) {
                qhat_enumerator_go_to(&en, to, modify || hk_chance(1, 2));
                en_check(m, en.end, en.key, true, to, "go_to");
                continue;
            }
        }
        qhat_enumerator_next(&en, modify || hk_chance(1, 2));
        en_check(m, en.end, en.key, true, cur + 1, "next");
    }
}

static void mp_enum_bm(map_t *m)
{
    bool at = hk_chance(1, 2);
    bool modify = hk_chance(1, 2);
    uint32_t start = gen_key(m);
    qps_bitmap_enumerator_t en = at ? qps_bitmap_get_enumerator_at(&m->bm, start)
                                    : qps_bitmap_get_enumerator(&m->bm);
    int changes = hk_below(4) ? 1 + hk_below(40) : 2000;
    int steps = 0;
    int max = hk_chance(1, 3) ? hk_below(50) : INT_MAX;

    sh_g->enums++;
    en_check(m, en.end, en.key.key, true, at ? start : 0, "bitmap start");
    while (!en.end && steps++ < max) {
        uint64_t cur = en.key.key;
        bool changed = false;

        if (modify && hk_below(changes) == 0) {
            for (int i = 1 + hk_below(3); i-- > 0; ) {
                switch (hk_below(5)) {
                  case 0:  mp_del(m, cur); break;
                  case 1:  mp_set(m, cur + hk_range(-3, 3)); break;
                  case 2:  mp_del(m, cur + hk_range(-3, 3)); break;
                  case 3:  mp_set0(m, cur + hk_range(-1, 1)); break;
                  default: mp_any(m); break;
                }
            }
            changed = true;
        }
        if (!changed && en.value != !!m_get(m, cur)->l) {
            hk_violation("bitmap-enum-value", "key %ju: %d", (uintmax_t)cur,
                         en.value);
        }
        if (hk_chance(1, 10)) {
            uint64_t to = hk_chance(1, 2) ? cur + hk_below(5)
                        : hk_chance(1, 2) ? cur + hk_below(5000)
                        : (uint32_t)gen_key(m);

            if (to >= cur && to <= UINT32_MAX) {
                qps_bitmap_enumerator_go_to(&en, to,
                                            modify || hk_chance(1, 2));
                en_check(m, en.end, en.key.key, true, to, "bitmap go_to");
                continue;
            }
        }
        qps_bitmap_enumerator_next(&en, modify || hk_chance(1, 2));
        en_check(m, en.end, en.key.key, true, cur + 1, "bitmap next");
    }
}

/* }}} */
/* {{{ whole maps */

static void mp_check(map_t *m, const char *when)
{
    int i = 0;

    if (m->is_hat) {
        bool sub = false;

        if (qhat_check_consistency(&m->hat, &sub) < 0) {
            hk_violation("map-consistency", "%s", when);
        }
        qhat_for_each_unsafe(en, &m->hat) {
            if (i >= m->nb || m->e[i].key != en.key) {
                hk_violation("map-all", "%s: entry %d of %d: key %u", when,
                             i, m->nb, en.key);
            }
            val_check(m, en.key, qhat_enumerator_get_value_unsafe(&en),
                      &m->e[i], when);
            i++;
        }
        if (m->stats) {
            uint64_t mem = qhat_compute_memory(&m->hat);
            uint64_t over = qhat_compute_memory_overhead(&m->hat);

            qhat_compute_counts(&m->hat, true);
            if (qhat_compute_memory(&m->hat) != mem
            ||  qhat_compute_memory_overhead(&m->hat) != over)
            {
                hk_violation("map-stats", "%s: memory %ju/%ju overhead "
                             "%ju/%ju", when, (uintmax_t)mem,
                             (uintmax_t)qhat_compute_memory(&m->hat),
                             (uintmax_t)over, (uintmax_t)
                             qhat_compute_memory_overhead(&m->hat));
            }
            sh_g->nodes += m->hat.root->flat_count;
        }
    } else {
        size_t mem;
        uint32_t entries;
        uint32_t slots;

        qps_bitmap_for_each_unsafe(en, &m->bm) {
            if (i >= m->nb || m->e[i].key != en.key.key
            ||  en.value != !!m->e[i].l)
            {
                hk_violation("bitmap-all", "%s: entry %d of %d: key %u=%d",
                             when, i, m->nb, en.key.key, en.value);
            }
            i++;
        }
        qps_bitmap_compute_stats(&m->bm, &mem, &entries, &slots);
        if (entries != (uint32_t)m->nb) {
            hk_violation("bitmap-stats", "%s: %u entries instead of %d", when,
                         entries, m->nb);
        }
    }
    if (i != m->nb) {
        hk_violation("map-all", "%s: %d entries instead of %d", when, i,
                     m->nb);
    }
    sh_g->events += i;
}

static void mp_check_leaks(const char *when)
{
    qps_roots_t roots;

    qps_roots_init(&roots);
    for (int i = 0; i < nb_maps_g; i++) {
        if (maps_g[i].is_hat) {
            qhat_get_qps_roots(&maps_g[i].hat, &roots);
        } else {
            qps_bitmap_get_qps_roots(&maps_g[i].bm, &roots);
        }
    }
    if (qps_check_leaks(qps_g, &roots) < 0) {
        hk_violation("map-leak", "%s", when);
    }
    qps_roots_wipe(&roots);
}

static void mp_open(map_t *m)
{
    m->has_path = false;
    if (m->is_hat) {
        qhat_init(&m->hat, qps_g, m->handle);
    } else {
        qps_bitmap_init(&m->bm, qps_g, m->handle);
    }
}

static void maps_snapshot(void)
{
    qps_snapshot(qps_g, "x", 1, ^(uint32_t gen) { });
    sh_g->snapshots++;
    for (int i = 0; i < nb_maps_g; i++) {
        map_t *m = &maps_g[i];

        m->snb = m->nb;
        (memcpy)(m->se, m->e, m->nb * sizeof(ent_t));
    }
}

static void maps_reopen(void)
{
    SB_1k(priv);

    qps_snapshot_wait(qps_g);
    qps_close(&qps_g);
    qps_g = qps_open(dir_g, "store", &priv);
    if (!qps_g) {
        hk_violation("open", "cannot open the store");
    }
    for (int i = 0; i < nb_maps_g; i++) {
        map_t *m = &maps_g[i];

        m->nb = m->snb;
        (memcpy)(m->e, m->se, m->nb * sizeof(ent_t));
        mp_open(m);
        mp_check(m, "after reopening");
    }
    mp_check_leaks("after reopening");
    sh_g->reopens++;
}

static int maps_kind_g;         /* 0: tries, 1: bitmaps, 2: both */

static void child_maps(void)
{
    int nb = 5 + hk_below(hk_chance(1, 4) ? 400 : 60);

    dbg_g = !!(getenv)("QDBG");
    MODULE_REQUIRE(qps);
    qps_g = qps_create(dir_g, "store", 0755, "x", 1);
    if (!qps_g) {
        hk_violation("create", "%m");
    }
    gen_regions();
    nb_maps_g = 1 + hk_below(countof(maps_g));
    for (int i = 0; i < nb_maps_g; i++) {
        map_t *m = &maps_g[i];

        m->is_hat = maps_kind_g == 0 || (maps_kind_g == 2 && i != 1);
        m->is_null = hk_chance(1, 2);
        m->vlen = 1 << hk_below(5);
        m->e = (calloc)(MAP_MAX + 1, sizeof(ent_t));
        m->se = (calloc)(MAP_MAX + 1, sizeof(ent_t));
        m->handle = m->is_hat ? qhat_create(qps_g, m->vlen, m->is_null)
                              : qps_bitmap_create(qps_g, m->is_null);
        mp_open(m);
        if (m->is_hat && hk_chance(1, 2)) {
            m->stats = true;
            qhat_compute_counts(&m->hat, true);
        }
        sh_g->hash = hk_mix(sh_g->hash, m->vlen * 4 + m->is_null * 2
                            + m->is_hat);
    }
    maps_snapshot();
    while (nb-- > 0) {
        map_t *m = &maps_g[hk_below(nb_maps_g)];
        int op = hk_below(100);

        DBG("OP %d vlen %d null %d stats %d nb %d", op, m->vlen, m->is_null, m->stats, m->nb);
        sh_g->hash = hk_mix(sh_g->hash, op * 1000 + m->nb);
        if (op < 25) {
            mp_run(m);
        } else
        if (op < 65) {
            for (int k = hk_below(100); k-- > 0; ) {
                mp_any(m);
            }
        } else
        if (op < 80) {
            if (m->is_hat) {
                mp_enum_hat(m);
            } else {
                mp_enum_bm(m);
            }
        } else
        if (op < 85) {
            mp_path(m);
        } else
        if (op < 90) {
            mp_check(m, "at some point");
        } else
        if (op < 93) {
            qps_snapshot_wait(qps_g);
            maps_snapshot();
        } else
        if (op < 95) {
            maps_reopen();
        } else
        if (op < 97) {
            gen_regions();
        } else
        if (op < 98) {
            if (m->is_hat) {
                qhat_clear(&m->hat);
            } else {
                qps_bitmap_clear(&m->bm);
            }
            m->nb = 0;
            mp_check(m, "after a clear");
            mp_check_leaks("after a clear");
        } else {
            qps_snapshot_wait(qps_g);
            qps_gc_run(qps_g);
            mp_check_leaks("after a garbage collection");
        }
    }
    for (int i = 0; i < nb_maps_g; i++) {
        mp_check(&maps_g[i], "at the end");
    }
    mp_check_leaks("at the end");
    qps_snapshot_wait(qps_g);
    maps_snapshot();
    maps_reopen();
    while (nb_maps_g > 0) {
        map_t *m = &maps_g[--nb_maps_g];

        if (m->is_hat) {
            qhat_destroy(&m->hat);
        } else {
            qps_bitmap_destroy(&m->bm);
        }
        mp_check_leaks("after a destroy");
        (free)(m->e);
        (free)(m->se);
    }
    qps_snapshot_wait(qps_g);
    qps_close(&qps_g);
    MODULE_RELEASE(qps);
}

static void maps_case(int kind)
{
    case_begin();
    maps_kind_g = kind;
    in_child(&child_maps);
    if (!sh_g->finished) {
        hk_violation("child", "did not finish");
    }
    case_end();
}

static void sc_tries(void)
{
    maps_case(0);
}

static void sc_bitmaps(void)
{
    maps_case(1);
}

static void sc_maps(void)
{
    maps_case(2);
}

/* }}} */

#define QPSMAPS_SCENARIOS  \
        { "tries",   sc_tries,   480, 20000 },  \
        { "bitmaps", sc_bitmaps, 160,  6000 },   \
        { "maps",    sc_maps,    120,  5000 },
