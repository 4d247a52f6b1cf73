/* One vector type: VN (type name), VT (element type), VBITS (token width).
 * The model is an array of tokens; the element of a token is a fixed function
 * of it. */
#define CAT_(a, b)  a##_##b
#define CAT(a, b)   CAT_(a, b)
#define F(x)        CAT(x, VN)
#define QV          CAT(VN, qvt)
#define MASK        ((uint32_t)((1ull << VBITS) - 1))

#define QVT_(n)  qvector_t(n, VT)
#define QVT(n)   QVT_(n)
#define Q_(n)    qv_t(n)
#define Q(n)     Q_(n)
#define QSORT_(n)   qv_sort(n)
#define QUNIQ_(n)   qv_uniq(n)
#define QDIFF_(n)   qv_diff(n)
#define QBIS_(n)    qv_bisect(n)
#define QFIND_(n)   qv_find(n)
#define QCONT_(n)   qv_contains(n)
#define QDEXT_(n)   qv_deep_extend(n)
#define A1(m, n)    m(n)

QVT(VN);

static VT F(mk)(uint32_t tok)
{
    VT e;
    uint8_t *p = (void *)&e;

    for (size_t i = 0; i < sizeof(VT); i++) {
        p[i] = i < 4 ? tok >> (8 * i) : (tok * 131 + i * 29) >> (i % 3);
    }
    return e;
}

static uint32_t F(tok)(const VT *e)
{
    const uint8_t *p = (const void *)e;
    uint32_t tok = 0;

    for (size_t i = 0; i < 4 && i < sizeof(VT); i++) {
        tok |= (uint32_t)p[i] << (8 * i);
    }
    return tok;
}

static int F(cmp)(const VT *a, const VT *b)
{
    return CMP(KEY(F(tok)(a)), KEY(F(tok)(b)));
}

static void F(check)(const Q(VN) *v, const model_t *m, const char *what)
{
    HK_CHECK(v->len == m->len, "len", "%s of " TOSTR(VN) ": length %d, "
             "expected %d", what, v->len, m->len);
    HK_CHECK(v->size >= v->len, "size", "%s of " TOSTR(VN) ": size %d for "
             "length %d", what, v->size, v->len);
    for (int i = 0; i < m->len; i++) {
        VT e = F(mk)(m->t[i]);

        if (memcmp(&v->tab[i], &e, sizeof(VT))) {
            hk_violation("content", "%s of " TOSTR(VN) ": element %d of %d is "
                         "%x, expected %x", what, i, v->len,
                         F(tok)(&v->tab[i]), m->t[i]);
        }
    }
    hk_events(m->len);
}

/* array of n elements in a block of exact size */
static VT *F(arr)(const uint32_t *t, int n)
{
    VT *r = malloc(n * sizeof(VT) ?: 1);

    for (int i = 0; i < n; i++) {
        r[i] = F(mk)(t[i]);
    }
    return r;
}

static void F(initv)(Q(VN) *v, int how, int sz, void *buf)
{
    switch (how) {
      case 0:
        qv_init(v);
        break;
      case 1:
        t_qv_init(v, sz);
        break;
      case 2:
        mp_qv_init(NULL, v, sz);
        break;
      default:
        /* what qv_inita does, on a buffer of exact size */
        __qvector_init(&v->qv, buf, 0, sz, &mem_pool_static);
        break;
    }
}

static void F(history)(void)
{
    t_scope;
    Q(VN) v;
    Q(VN) w;
    model_t *m = &m1_g;
    model_t *o = &m2_g;
    int how = hk_below(4);
    int isz = hk_chance(1, 3) ? 0 : hk_below(40);
    void *buf = malloc(isz * sizeof(VT) ?: 1);
    int nops = hk_range(5, 120);
    int cap = hk_chance(1, 25) ? VMAX / 2
            : hk_chance(1, 4) ? 600 : 60;
    uint64_t h = hk_mix(sizeof(VT), how);

    m->len = o->len = 0;
    F(initv)(&v, how, isz, buf);
    qv_init(&w);
    hk_trace("vector of %s, init %d size %d", TOSTR(VN), how, isz);
    for (int n = 0; n < nops; n++) {
        int op = hk_below(34);
        uint32_t tok = hk_rand() & MASK;
        int pos = m->len ? hk_below(m->len + 1) : 0;
        int rm = hk_chance(1, 10) ? m->len - pos
               : hk_chance(1, 2) ? hk_below(m->len - pos + 1)
               : hk_below(hk_cap(m->len - pos, 5) + 1);
        int add = hk_chance(1, 8) ? hk_below(cap) : hk_below(8);
        const char *what = "";

        if (m->len + add > cap) {
            add = 0;
        }
        for (int i = 0; i < add; i++) {
            new_g[i] = hk_rand() & MASK;
        }
        h = hk_mix(h, op * 1000 + pos);
        switch (op) {
          case 0: case 1:
            what = "append";
            if (m->len < cap) {
                qv_append(&v, F(mk)(tok));
                m_splice(m, m->len, 0, &tok, 1);
            }
            break;
          case 2:
            what = "push";
            if (m->len < cap) {
                qv_push(&v, F(mk)(tok));
                m_splice(m, 0, 0, &tok, 1);
            }
            break;
          case 3: case 4:
            what = "insert";
            if (m->len < cap) {
                VT e = F(mk)(tok);

                qv_insertp(&v, pos, &e);
                m_splice(m, pos, 0, &tok, 1);
            }
            break;
          case 5:
            what = "remove";
            if (m->len) {
                pos = hk_below(m->len);
                qv_remove(&v, pos);
                m_splice(m, pos, 1, NULL, 0);
            }
            break;
          case 6:
            what = "remove_last";
            if (m->len) {
                qv_remove_last(&v);
                m_splice(m, m->len - 1, 1, NULL, 0);
            }
            break;
          case 7:
            what = "pop";
            if (m->len) {
                qv_pop(&v);
                m_splice(m, 0, 1, NULL, 0);
            }
            break;
          case 8: case 9: case 10: {
            VT *a = F(arr)(new_g, add);
            VT *res;

            what = "splice";
            hk_trace("splice pos %d rm %d add %d", pos, rm, add);
            res = qv_splice(&v, pos, rm, a, add);
            HK_CHECK(res == v.tab + pos, "splice-result", "wrong pointer");
            m_splice(m, pos, rm, new_g, add);
            free(a);
          } break;
          case 11: {
            VT *res;

            what = "raw splice";
            res = __qv_splice(&v, pos, rm, add);
            for (int i = 0; i < add; i++) {
                res[i] = F(mk)(new_g[i]);
            }
            m_splice(m, pos, rm, new_g, add);
          } break;
          case 12: {
            /* constant lengths take their own path */
            VT a[3] = { F(mk)(tok), F(mk)(tok ^ 1), F(mk)(tok ^ 3) };
            uint32_t t[3] = { tok, tok ^ 1, tok ^ 3 };

            what = "constant splice";
            switch (hk_below(6)) {
              case 0:
                if (m->len < cap) {
                    qv_splice(&v, pos, 0, a, 3);
                    m_splice(m, pos, 0, t, 3);
                }
                break;
              case 1:
                if (pos < m->len) {
                    qv_splice(&v, pos, 1, a, 1);
                    m_splice(m, pos, 1, t, 1);
                }
                break;
              case 2:
                if (pos + 3 <= m->len) {
                    qv_splice(&v, pos, 3, a, 1);
                    m_splice(m, pos, 3, t, 1);
                }
                break;
              case 3:
                if (pos < m->len) {
                    qv_splice(&v, pos, 1, NULL, 0);
                    m_splice(m, pos, 1, NULL, 0);
                }
                break;
              case 4:
                qv_splice(&v, pos, rm, NULL, 0);
                m_splice(m, pos, rm, NULL, 0);
                break;
              default:
                if (m->len < cap) {
                    qv_splice(&v, m->len, 0, a, 2);
                    m_splice(m, m->len, 0, t, 2);
                }
                break;
            }
          } break;
          case 13:
            what = "skip";
            rm = hk_below(m->len + 1);
            qv_skip(&v, rm);
            m_splice(m, 0, rm, NULL, 0);
            break;
          case 14:
            what = "clip";
            qv_clip(&v, pos);
            m->len = pos;
            break;
          case 15:
            what = "shrink";
            qv_shrink(&v, rm);
            m->len -= rm;
            break;
          case 16: case 17: {
            VT *a = F(arr)(new_g, add);

            what = "extend";
            qv_extend(&v, a, add);
            m_splice(m, m->len, 0, new_g, add);
            free(a);
          } break;
          case 18:
            what = "extend_tab";
            if (m->len + o->len <= cap) {
                qv_extend_tab(&v, &w);
                m_splice(m, m->len, 0, o->t, o->len);
            }
            break;
          case 19: {
            VT zero;

            what = "growlen0";
            p_clear(&zero, 1);
            qv_growlen0(&v, add);
            for (int i = 0; i < add; i++) {
                HK_CHECK(!memcmp(&v.tab[m->len + i], &zero, sizeof(VT)),
                         "growlen0", "element %d is not zero", i);
                v.tab[m->len + i] = F(mk)(new_g[i]);
            }
            m_splice(m, m->len, 0, new_g, add);
          } break;
          case 20: {
            VT *res;

            what = "grow";
            res = qv_grow(&v, add);
            HK_CHECK(v.size >= m->len + add && res == v.tab + m->len,
                     "grow", "room for %d after growing by %d",
                     v.size - m->len, add);
            for (int i = 0; i < add; i++) {
                res[i] = F(mk)(new_g[i]);
            }
          } break;
          case 21:
            what = "clear";
            if (hk_chance(1, 4)) {
                qv_clear(&v);
                m->len = 0;
            }
            break;
          case 22: {
            int r1 = hk_chance(1, 2) ? 0 : hk_below(300);
            int r2 = hk_chance(1, 2) ? 0 : hk_below(200);

            what = "optimize";
            qv_optimize(&v, r1, r2);
          } break;
          case 23:
            what = "copy";
            if (hk_chance(1, 2)) {
                qv_copy(&w, &v);
                m_copy(o, m);
            } else {
                qv_copy(&v, &w);
                m_copy(m, o);
            }
            F(check)(&w, o, "copy");
            break;
          case 24:
            what = "sort";
            if (hk_chance(1, 2)) {
                qv_qsort(&v, &F(cmp));
            } else {
                A1(QSORT_, VN)(&v, ^int (const VT *a, const VT *b) {
                    return F(cmp)(a, b);
                });
            }
            for (int i = 0; i < v.len; i++) {
                new_g[i] = F(tok)(&v.tab[i]);
                HK_CHECK(!i || KEY(new_g[i - 1]) <= KEY(new_g[i]), "sorted",
                         "not sorted at %d", i);
            }
            HK_CHECK(v.len == m->len && m_same_bag(m, new_g), "sort-bag",
                     "sorting changed the elements");
            m_set(m, new_g, v.len);
            break;
          case 25: {
            __block int ndel = 0;
            int len = 0;
            bool with_del = hk_chance(1, 2);

            what = "uniq";
            qv_qsort(&v, &F(cmp));
            for (int i = 0; i < v.len; i++) {
                new_g[i] = F(tok)(&v.tab[i]);
            }
            m_set(m, new_g, v.len);
            for (int i = 0; i < m->len; i++) {
                if (!i || KEY(m->t[i]) != KEY(m->t[i - 1])) {
                    len++;
                }
            }
            A1(QUNIQ_, VN)(&v, ^int (const VT *a, const VT *b) {
                return F(cmp)(a, b);
            }, with_del ? ^(VT *e) { ndel++; } : NULL);
            HK_CHECK(v.len == len, "uniq", "%d elements kept, expected %d",
                     v.len, len);
            HK_CHECK(!with_del || ndel == m->len - len, "uniq-del",
                     "%d elements deleted, expected %d", ndel, m->len - len);
            /* the kept elements: one per key, in order, of the vector */
            for (int i = 0, j = 0; i < v.len; i++) {
                uint32_t t = F(tok)(&v.tab[i]);
                bool ok = false;

                while (j < m->len && KEY(m->t[j]) < KEY(t)) {
                    j++;
                }
                for (int k = j; k < m->len && KEY(m->t[k]) == KEY(t); k++) {
                    ok |= m->t[k] == t;
                }
                HK_CHECK(ok && (!i || KEY(new_g[i - 1]) < KEY(t)),
                         "uniq-content", "element %d is %x", i, t);
                new_g[i] = t;
            }
            m_set(m, new_g, v.len);
          } break;
          case 26: case 27: {
            /* search in an unsorted then in a sorted vector */
            VT e;
            int want = -1;
            int got;
            bool found = hk_chance(1, 2);
            int lo = 0, hi;

            what = "find";
            if (m->len && hk_chance(1, 2)) {
                tok = m->t[hk_below(m->len)];
            }
            e = F(mk)(tok);
            for (int i = 0; i < m->len && want < 0; i++) {
                if (KEY(m->t[i]) == KEY(tok)) {
                    want = i;
                }
            }
            got = A1(QFIND_, VN)(&v, e, false,
                                 ^int (const VT *a, const VT *b) {
                return F(cmp)(a, b);
            });
            HK_CHECK(got == want, "find", "found at %d, expected %d", got,
                     want);
            qv_qsort(&v, &F(cmp));
            for (int i = 0; i < v.len; i++) {
                new_g[i] = F(tok)(&v.tab[i]);
            }
            m_set(m, new_g, v.len);
            while (lo < m->len && KEY(m->t[lo]) < KEY(tok)) {
                lo++;
            }
            hi = lo;
            while (hi < m->len && KEY(m->t[hi]) == KEY(tok)) {
                hi++;
            }
            got = A1(QFIND_, VN)(&v, e, true,
                                 ^int (const VT *a, const VT *b) {
                return F(cmp)(a, b);
            });
            HK_CHECK(lo < hi ? got >= lo && got < hi : got == -1,
                     "find-sorted", "found at %d, expected [%d, %d)", got,
                     lo, hi);
            HK_CHECK(A1(QCONT_, VN)(&v, e, hk_chance(1, 2),
                                    ^int (const VT *a, const VT *b) {
                return F(cmp)(a, b);
            }) == (lo < hi), "contains", "wrong answer");
            got = A1(QBIS_, VN)(&v, e, hk_chance(1, 4) ? NULL : &found,
                                ^int (const VT *a, const VT *b) {
                return F(cmp)(a, b);
            });
            HK_CHECK(lo < hi ? got >= lo && got < hi : got == lo, "bisect",
                     "position %d, expected [%d, %d)", got, lo, hi);
          } break;
          case 28: {
            what = "shuffle";
            qv_shuffle(&v);
            for (int i = 0; i < v.len; i++) {
                new_g[i] = F(tok)(&v.tab[i]);
            }
            HK_CHECK(v.len == m->len && m_same_bag(m, new_g), "shuffle-bag",
                     "shuffling changed the elements");
            m_set(m, new_g, v.len);
          } break;
          case 29: case 30: {
            /* sorted and deduplicated sides */
            Q(VN) d[5];
            model_t *side[2] = { &m3_g, &m4_g };
            int nb[2];
            bool opt[3];
            int c[3] = { 0, 0, 0 };
            int i = 0, j = 0;
            int pre[3];

            what = "diff";
            for (int k = 0; k < 5; k++) {
                F(initv)(&d[k], hk_below(3), hk_below(5), NULL);
            }
            for (int k = 0; k < 2; k++) {
                uint32_t key = 0;

                nb[k] = hk_below(hk_chance(1, 8) ? 200 : 12);
                side[k]->len = 0;
                for (int x = 0; x < nb[k]; x++) {
                    key += 1 + hk_below(3);
                    if (key > KEY(MASK)) {
                        break;
                    }
                    /* same key, different element on each side */
                    side[k]->t[side[k]->len++] = key * 4 + k;
                    qv_append(&d[k], F(mk)(key * 4 + k));
                }
            }
            for (int k = 0; k < 3; k++) {
                opt[k] = hk_chance(3, 4);
                pre[k] = hk_below(4);
                for (int x = 0; x < pre[k]; x++) {
                    qv_append(&d[2 + k], F(mk)(x + 77));
                }
            }
            A1(QDIFF_, VN)(&d[0], &d[1], opt[0] ? &d[2] : NULL,
                           opt[1] ? &d[3] : NULL, opt[2] ? &d[4] : NULL,
                           ^int (const VT *a, const VT *b) {
                return F(cmp)(a, b);
            });
            for (int k = 0; k < 3; k++) {
                for (int x = 0; x < pre[k]; x++) {
                    HK_CHECK(F(tok)(&d[2 + k].tab[x]) == x + 77u, "diff-pre",
                             "earlier content changed");
                }
                c[k] = pre[k];
            }
            while (i < side[0]->len || j < side[1]->len) {
                uint32_t want;
                int out;

                if (j >= side[1]->len || (i < side[0]->len
                    && KEY(side[0]->t[i]) < KEY(side[1]->t[j])))
                {
                    want = side[0]->t[i++];
                    out = 1;
                } else
                if (i >= side[0]->len
                ||  KEY(side[1]->t[j]) < KEY(side[0]->t[i]))
                {
                    want = side[1]->t[j++];
                    out = 0;
                } else {
                    want = side[0]->t[i++];
                    j++;
                    out = 2;
                }
                if (opt[out]) {
                    HK_CHECK(c[out] < d[2 + out].len
                             && F(tok)(&d[2 + out].tab[c[out]]) == want,
                             "diff", "output %d misses %x at %d", out, want,
                             c[out]);
                    c[out]++;
                }
            }
            for (int k = 0; k < 3; k++) {
                HK_CHECK(d[2 + k].len == (opt[k] ? c[k] : pre[k]),
                         "diff-len", "output %d has %d elements, expected %d",
                         k, d[2 + k].len, c[k]);
            }
            F(check)(&d[0], side[0], "diff left");
            F(check)(&d[1], side[1], "diff right");
            for (int k = 0; k < 5; k++) {
                qv_wipe(&d[k]);
            }
          } break;
          case 31: {
            what = "deep extend";
            if (m->len + o->len <= cap) {
                A1(QDEXT_, VN)(&v, &w, ^(VT *a, const VT *b) {
                    *a = F(mk)(F(tok)(b) ^ 5);
                });
                for (int i = 0; i < o->len; i++) {
                    new_g[i] = o->t[i] ^ 5;
                }
                m_splice(m, m->len, 0, new_g, o->len);
            }
          } break;
          case 32: {
            int i = 0;

            what = "iterate";
            tab_for_each_ptr(p, &v) {
                HK_CHECK(i < m->len && F(tok)(p) == m->t[i], "for_each",
                         "at %d", i);
                i++;
            }
            HK_CHECK(i == m->len, "for_each", "%d of %d", i, m->len);
            tab_for_each_pos_rev(p, &v) {
                i--;
                HK_CHECK(p == i, "for_each_rev", "at %d", i);
            }
            HK_CHECK(i == 0, "for_each_rev", "%d left", i);
            tab_for_each_pos_safe(p, &v) {
                if (p % 3 == 1) {
                    qv_remove(&v, p);
                    m_splice(m, p, 1, NULL, 0);
                }
            }
            if (m->len) {
                HK_CHECK(F(tok)(tab_last(&v)) == m->t[m->len - 1],
                         "tab_last", "wrong");
            }
            if (m->len > 1) {
                int a = hk_below(m->len), b = hk_below(m->len);

                tab_swap(&v, a, b);
                SWAP(uint32_t, m->t[a], m->t[b]);
            }
          } break;
          default:
            what = "wipe";
            if (hk_chance(1, 4)) {
                qv_wipe(&v);
                m->len = 0;
                F(initv)(&v, hk_below(3), hk_below(10), NULL);
            }
            break;
        }
        F(check)(&v, m, what);
        hk_count(what, 1);
    }
    F(check)(&w, o, "other");
    qv_wipe(&v);
    qv_wipe(&w);
    free(buf);
    hk_distinct(h);
}

#undef F
#undef QV
#undef MASK
#undef Q
#undef Q_
#undef QVT
#undef QVT_
#undef VN
#undef VT
#undef VBITS
#undef QSORT_
#undef QUNIQ_
#undef QDIFF_
#undef QBIS_
#undef QFIND_
#undef QCONT_
#undef QDEXT_
#undef A1
#undef CAT
#undef CAT_
