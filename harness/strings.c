/* C52: string primitives against their definitions. */
#include <lib-common/core.h>
#include <fcntl.h>
#include <sys/mman.h>
#include "hk.h"

/* {{{ tools */

/* a text over a small alphabet (so that matches happen), in a block of exactly
 * its size plus a terminator */
static const char *const alphas[] = {
    "ab", "abAB", "aA,", "ab \t\n", "01289-", "09aAfFgG", "abc\xe9\xc9_",
    "xX\v\f\r .", "9", "F", "fF0",
};

static char *mk_text(const char *alpha, int len)
{
    char *s = (malloc)(len + 1);
    int n = strlen(alpha);

    for (int i = 0; i < len; i++) {
        s[i] = alpha ? alpha[hk_below(n)] : 1 + hk_below(255);
    }
    s[len] = '\0';
    return s;
}

static int some_len(void)
{
    return hk_chance(1, 8) ? (int)hk_below(70) : (int)hk_below(9);
}

static int lo(int c)
{
    c &= 0xff;
    return c >= 'A' && c <= 'Z' ? c + 32 : c;
}

static bool is_space(int c)
{
    return c == ' ' || (c >= 9 && c <= 13);
}

static const char *sb_hex(const char *s, int len)
{
    static char buf[512];

    *buf = '\0';
    for (int i = 0; i < len && i < 200; i++) {
        (sprintf)(buf + 2 * i, "%02x", (byte)s[i]);
    }
    return buf;
}

static int sgn(int64_t v)
{
    return v < 0 ? -1 : v > 0;
}

static void same_mem(const char *key, const void *a, int alen, const void *b,
                     int blen)
{
    HK_CHECK(alen == blen && (!alen || !(memcmp)(a, b, alen)), key,
             "got %d bytes [%.*s], expected %d bytes [%.*s]", alen,
             MIN(alen, 80), (const char *)a, blen, MIN(blen, 80),
             (const char *)b);
}

/* }}} */
/* {{{ C strings */

static void run_cstr(void)
{
    const char *alpha = alphas[hk_below(countof(alphas))];
    int len = some_len(), plen = hk_chance(1, 6) ? some_len() : hk_below(4);
    char *s = mk_text(alpha, len);
    char *p;
    const char *q, *end;
    int i, n;

    if (hk_chance(1, 3) && plen <= len) {
        n = hk_chance(1, 2) ? 0 : hk_below(len - plen + 1);
        p = (malloc)(plen + 1);
        for (i = 0; i < plen; i++) {
            p[i] = s[n + i];
            if (hk_chance(1, 4) && lo(p[i]) >= 'a' && lo(p[i]) <= 'z') {
                p[i] ^= 32;
            }
        }
        p[plen] = '\0';
    } else {
        p = mk_text(alpha, plen);
    }
    hk_distinct(hk_hash(s, len, hk_hash(p, plen, 1)));
    hk_events(1);

    /* blanks */
    for (i = 0; is_space(s[i]); i++);
    HK_CHECK(skipspaces(s) == s + i, "skipspaces", "[%s]", s);
    HK_CHECK(vskipspaces(s) == s + i, "skipspaces", "[%s]", s);
    for (i = 0; s[i] == ' ' || s[i] == '\t'; i++);
    HK_CHECK(skipblanks(s) == s + i, "skipblanks", "[%s]", s);
    for (i = 0; s[i] && !is_space(s[i]); i++);
    HK_CHECK(strnextspace(s) == s + i, "strnextspace", "[%s]", s);

    /* prefixes */
    for (int ci = 0; ci < 2; ci++) {
        bool exp = plen <= len;
        int r;

        for (i = 0; exp && i < plen; i++) {
            exp = ci ? lo(s[i]) == lo(p[i]) : s[i] == p[i];
        }
        end = NULL;
        r = ci ? stristart(s, p, &end) : strstart(s, p, &end);
        HK_CHECK(!!r == exp, "strstart", "ci %d [%s] [%s]: %d", ci, s, p, r);
        if (r) {
            HK_CHECK(end == s + plen, "strstart-end", "ci %d [%s] [%s]", ci, s,
                     p);
            hk_count("prefixes", 1);
        }
        r = ci ? stristart(s, p, NULL) : strstart(s, p, NULL);
        HK_CHECK(!!r == exp, "strstart", "ci %d [%s] [%s]: %d", ci, s, p, r);
        HK_CHECK(!(ci ? stristart(NULL, p, &end) : strstart(NULL, p, &end)),
                 "strstart-null", "[%s]", p);
    }

    /* case insensitive search */
    q = NULL;
    for (n = 0; n + plen <= len && !q; n++) {
        for (i = 0; i < plen && lo(s[n + i]) == lo(p[i]); i++);
        if (i == plen) {
            q = s + n;
        }
    }
    HK_CHECK(stristrn(s, p, plen) == q, "stristrn", "[%s] [%s]: at %td, "
             "expected %td", s, p, stristrn(s, p, plen) - s, q - s);
    HK_CHECK(stristr(s, p) == q, "stristr", "[%s] [%s]", s, p);
    {
        /* the needle needs no terminator */
        char *e = hk_exact(p, plen);

        HK_CHECK(stristrn(s, e, plen) == q, "stristrn", "[%s] [%s]", s, p);
        (free)(e);
    }
    if (plen) {
        /* a final null byte matches the terminator, others match nothing */
        char *e = (malloc)(plen + 2);
        int xlen = 1 + (int)hk_below(2);

        memcpy(e, p, plen);
        e[plen] = '\0';
        e[plen + 1] = 'a';
        q = NULL;
        if (xlen == 1 && plen <= len) {
            for (i = 0; i < plen && lo(s[len - plen + i]) == lo(p[i]); i++);
            q = i == plen ? s + len - plen : NULL;
        }
        HK_CHECK(stristrn(s, e, plen + xlen) == q, "stristrn-nul",
                 "[%s] [%s] then null and %d bytes", s, p, xlen - 1);
        (free)(e);
    }
    hk_sample("[%s] in [%s]", p, s);
    hk_count("searches", 1);
    hk_count("found", q != NULL);

    /* replacement of a character */
    {
        char *c = hk_exact(s, len + 1);
        int from = len ? s[hk_below(len)] : 'a', to = 1 + hk_below(255);
        int nb = 0, r;

        if (hk_chance(1, 5)) {
            from = 'z';
        }
        r = str_replace(from, to, c);
        for (i = 0; i < len; i++) {
            nb += s[i] == (char)from;
            HK_CHECK(c[i] == (s[i] == (char)from ? (char)to : s[i]),
                     "str_replace", "[%s] %d -> %d gives [%s]", s, from, to,
                     c);
        }
        HK_CHECK(!c[len], "str_replace", "terminator");
        HK_CHECK(r == nb, "str_replace-count", "[%s] %d: %d, expected %d", s,
                 from, r, nb);
        (free)(c);
    }

    /* bounded copy */
    {
        ssize_t size = hk_range(-1, len + 3);
        char *d = (malloc)(MAX(size, 0) ?: 1);
        size_t r = pstrcpymem(d, size, s, len);

        HK_CHECK(r == (size_t)len, "pstrcpymem", "%zu", r);
        if (size > 0) {
            int cl = MIN(len, size - 1);

            same_mem("pstrcpymem", d, cl, s, cl);
            HK_CHECK(!d[cl], "pstrcpymem", "terminator");
        }
        (free)(d);
    }

    /* right trim */
    {
        char *c = hk_exact(s, len + 1);
        char *r = strrtrim(c);

        for (n = len; n > 0 && is_space(s[n - 1]); n--);
        HK_CHECK(r == c + n && (int)strlen(c) == n && !(memcmp)(c, s, n),
                 "strrtrim", "[%s] gives [%s]", s, c);
        HK_CHECK(!strrtrim(NULL), "strrtrim", "null");
        (free)(c);
    }
    (free)(s);
    (free)(p);
}

/* }}} */
/* {{{ word lists */

static void run_words(void)
{
    static const char *const wa[] = { "ab", "abc", "tuio" };
    const char *alpha = wa[hk_below(countof(wa))];
    int sep = hk_chance(1, 2) ? ',' : hk_chance(1, 2) ? ' ' : 1;
    int nb = hk_below(6), len = 0;
    char words[6][8], buf[80], w[12];
    char *table, *word;
    bool exp = false;

    if (nb && hk_chance(1, 6)) {
        buf[len++] = sep;
    }
    for (int i = 0; i < nb; i++) {
        int wl = hk_chance(1, 12) ? 0 : 1 + hk_below(6);

        for (int j = 0; j < wl; j++) {
            words[i][j] = alpha[hk_below(strlen(alpha))];
        }
        words[i][wl] = '\0';
        if (i) {
            buf[len++] = sep;
        }
        memcpy(buf + len, words[i], wl);
        len += wl;
    }
    if (nb && hk_chance(1, 6)) {
        buf[len++] = sep;
    }
    buf[len] = '\0';
    table = hk_exact(buf, len + 1);

    if (nb && hk_chance(2, 3)) {
        int i = hk_below(nb);

        strcpy(w, words[i]);
        if (hk_chance(1, 3)) {
            /* prefix or extension of a word */
            if (hk_chance(1, 2) && *w) {
                w[strlen(w) - 1] = '\0';
            } else {
                strcat(w, "a");
            }
        }
    } else {
        int wl = hk_below(11);

        for (int j = 0; j < wl; j++) {
            w[j] = alpha[hk_below(strlen(alpha))];
        }
        w[wl] = '\0';
    }
    word = hk_exact(w, strlen(w) + 1);
    if (*w) {
        for (int i = 0; i < nb; i++) {
            exp |= !(strcmp)(words[i], w);
        }
    } else {
        for (int i = 0; i + 1 < len; i++) {
            exp |= buf[i] == sep && buf[i + 1] == sep;
        }
    }
    HK_CHECK(strfind(table, word, sep) == exp, "strfind",
             "[%s] in [%s] (separator %d): expected %d", w, buf, sep, exp);
    hk_sample("word [%s] in [%s]: %d", w, buf, exp);
    hk_count("words", 1);
    hk_count("words_found", exp);
    hk_distinct(hk_hash(buf, len, hk_hash(w, strlen(w), sep)));
    hk_events(1);
    (free)(table);
    (free)(word);
}

/* }}} */
/* {{{ counters and random strings */

static int xval(int c)
{
    return c >= '0' && c <= '9' ? c - '0'
         : c >= 'a' && c <= 'f' ? c - 'a' + 10
         : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}

static void run_counter(void)
{
    bool hex = hk_chance(1, 2);
    int base = hex ? 16 : 10;
    int len = hk_below(14);
    char *s = mk_text(hk_chance(1, 3) ? (hex ? "fF" : "9")
                      : hk_chance(1, 2) ? "0189fF-" : "0123456789abcdefF",
                      len);
    char *c = hk_exact(s, len + 1);
    int start = len, r, carry = 1;
    bool neg = hk_chance(1, 2);

    if (!neg) {
        /* no terminator when the length is given */
        (free)(c);
        c = hk_exact(s, len);
    }
    r = hex ? buffer_increment_hex(c, neg ? -1 : len)
            : buffer_increment(c, neg ? -1 : len);
    while (start > 0 && xval(s[start - 1]) >= 0 && xval(s[start - 1]) < base) {
        start--;
    }
    for (int i = len; i-- > 0;) {
        int v;

        if (i < start) {
            HK_CHECK(c[i] == s[i], "increment", "[%s] byte %d changed", s, i);
            continue;
        }
        v = xval(s[i]) + carry;
        carry = v >= base;
        HK_CHECK(xval(c[i]) == v % base, "increment",
                 "base %d [%s] gives digit %c at %d", base, s, c[i], i);
        if (s[i] == '9' && hex && carry == 0 && v == 10) {
            HK_CHECK(c[i] == 'A', "increment", "9 gives %c", c[i]);
        }
        if (xval(s[i]) == xval(c[i])) {
            HK_CHECK(s[i] == c[i], "increment", "[%s]: case of digit %d", s,
                     i);
        }
    }
    HK_CHECK(r == carry, "increment-overflow", "base %d [%s]: %d", base, s,
             r);
    HK_CHECK((hex ? buffer_increment_hex(NULL, 0) : buffer_increment(NULL, 0))
             == 1, "increment-null", "null buffer");
    hk_count("increments", 1);
    hk_count("overflows", carry);
    hk_distinct(hk_hash(s, len, hex));
    (free)(s);
    (free)(c);

    /* random strings */
    {
        int size = 1 + hk_below(40);
        char *d = (malloc)(size);
        char *al = mk_text("abcdXYZ", 1 + hk_below(9));
        lstr_t alpha = LSTR(al);
        bool def = hk_chance(1, 3);
        size_t n;

        memset(d, 1, size);
        n = strrand(d, size, def ? LSTR_NULL_V : alpha);
        HK_CHECK(n == (size_t)size - 1 && !d[size - 1], "strrand", "%zu for "
                 "size %d", n, size);
        for (int i = 0; i < size - 1; i++) {
            HK_CHECK(def ? isalnum(d[i]) || d[i] == '+' || d[i] == '/'
                         : strchr(al, d[i]) && d[i], "strrand-alphabet",
                     "%d", d[i]);
        }
        (free)(al);

        {
            int offset = hk_below(size + 3);
            ssize_t want = hk_below(50), m;

            memset(d, 'z', size);
            m = pstrrand(d, size, offset, want);
            if (offset >= size) {
                HK_CHECK(m < 0, "pstrrand-room", "size %d offset %d: %zd",
                         size, offset, m);
            } else {
                HK_CHECK(m == MIN(want, size - offset - 1), "pstrrand",
                         "size %d offset %d n %zd: %zd", size, offset, want,
                         m);
                HK_CHECK(!d[offset + m], "pstrrand", "terminator");
            }
            for (int i = 0; i < size; i++) {
                if (m < 0 || i < offset || i > offset + m) {
                    HK_CHECK(d[i] == 'z', "pstrrand-outside", "byte %d", i);
                } else
                if (i < offset + m) {
                    HK_CHECK((d[i] >= '0' && d[i] <= '9')
                         ||  (d[i] >= 'A' && d[i] <= 'F'), "pstrrand-digit",
                             "%c", d[i]);
                }
            }
        }
        (free)(d);
    }
    hk_events(3);
}

/* }}} */
/* {{{ comparisons of lstr_t */

static int dl_naive(const char *a, int n, const char *b, int m)
{
    static int d[80][80];

    for (int i = 0; i <= n; i++) {
        for (int j = 0; j <= m; j++) {
            int best;

            if (!i || !j) {
                d[i][j] = i + j;
                continue;
            }
            best = d[i - 1][j - 1] + (a[i - 1] != b[j - 1]);
            best = MIN(best, d[i - 1][j] + 1);
            best = MIN(best, d[i][j - 1] + 1);
            if (i > 1 && j > 1 && a[i - 1] == b[j - 2]
            &&  a[i - 2] == b[j - 1])
            {
                best = MIN(best, d[i - 2][j - 2] + 1);
            }
            d[i][j] = best;
        }
    }
    return d[n][m];
}

static void run_lcmp(void)
{
    t_scope;
    const char *alpha = alphas[hk_below(countof(alphas))];
    int la = some_len(), lb = some_len();
    char *ta = mk_text(alpha, la), *tb;
    char *a, *b;
    lstr_t x, y;
    int exp, iexp, n;
    bool pre, ipre, suf, isuf, sub = false;

    if (hk_chance(1, 2) && la) {
        /* something close */
        int from = hk_chance(1, 2) ? 0 : hk_below(la);

        lb = hk_chance(1, 2) ? la - from : (int)hk_below(la - from + 1);
        tb = hk_exact(ta + from, lb + 1);
        tb[lb] = '\0';
        for (int k = hk_below(3); k-- > 0 && lb;) {
            int i = hk_below(lb);

            if (hk_chance(1, 2) && i + 1 < lb) {
                SWAP(char, tb[i], tb[i + 1]);
            } else
            if (lo(tb[i]) >= 'a' && lo(tb[i]) <= 'z') {
                tb[i] ^= 32;
            }
        }
    } else {
        tb = mk_text(alpha, lb);
    }
    if (hk_chance(1, 10)) {
        /* any byte */
        hk_fill(ta, la);
        hk_fill(tb, lb);
    }
    a = hk_exact(ta, la);
    b = hk_exact(tb, lb);
    x = LSTR_INIT_V(a, la);
    y = LSTR_INIT_V(b, lb);
    hk_distinct(hk_hash(a, la, hk_hash(b, lb, 7)));

    exp = iexp = 0;
    for (int i = 0; i < MIN(la, lb); i++) {
        exp = exp ?: (int)(byte)a[i] - (int)(byte)b[i];
        iexp = iexp ?: lo(a[i]) - lo(b[i]);
    }
    pre = ipre = suf = isuf = lb <= la;
    for (int i = 0; i < lb && lb <= la; i++) {
        pre  &= a[i] == b[i];
        ipre &= lo(a[i]) == lo(b[i]);
        suf  &= a[la - lb + i] == b[i];
        isuf &= lo(a[la - lb + i]) == lo(b[i]);
    }
    for (int o = 0; o + lb <= la && !sub; o++) {
        sub = !lb || !(memcmp)(a + o, b, lb);
    }
    exp = exp ?: la - lb;
    iexp = iexp ?: la - lb;

    HK_CHECK(sgn(lstr_cmp(x, y)) == sgn(exp), "cmp", "[%s] [%s]", ta, tb);
    HK_CHECK(sgn(lstr_cmp_p(&x, &y)) == sgn(exp), "cmp", "[%s] [%s]", ta, tb);
    HK_CHECK(sgn(lstr_ascii_icmp(x, y)) == sgn(iexp), "icmp",
             "[%s] [%s]: %d", ta, tb, lstr_ascii_icmp(x, y));
    HK_CHECK(sgn(lstr_ascii_icmp_p(&x, &y)) == sgn(iexp), "icmp",
             "[%s] [%s]", ta, tb);
    HK_CHECK(lstr_equal(x, y) == !exp, "equal", "[%s] [%s]", ta, tb);
    HK_CHECK(lstr_ascii_iequal(x, y) == !iexp, "iequal", "[%s] [%s]", ta, tb);
    HK_CHECK(lstr_startswith(x, y) == pre, "startswith", "[%s] [%s]", ta, tb);
    HK_CHECK(lstr_endswith(x, y) == suf, "endswith", "[%s] [%s]", ta, tb);
    HK_CHECK(lstr_ascii_istartswith(x, y) == ipre, "istartswith",
             "[%s] [%s]", ta, tb);
    HK_CHECK(lstr_ascii_iendswith(x, y) == isuf, "iendswith", "[%s] [%s]", ta,
             tb);
    HK_CHECK(lstr_contains(x, y) == sub, "contains", "[%s] [%s]", ta, tb);
    if (lb) {
        HK_CHECK(lstr_startswithc(x, (byte)b[0])
                 == (la && a[0] == b[0]), "startswithc", "[%s]", ta);
        HK_CHECK(lstr_endswithc(x, (byte)b[0])
                 == (la && a[la - 1] == b[0]), "endswithc", "[%s]", ta);
    }
    hk_sample("compare [%s] with [%s]", sb_hex(a, la), tb);
    hk_count("comparisons", 1);
    hk_count("equal", !exp);
    hk_count("iequal", !iexp);
    hk_count("suffixes", isuf);

    /* character classes */
    {
        ctype_desc_t d1, d2, d3;
        bool in1 = true, in3 = true, inn = true;

        ctype_desc_build2(&d1, b, lb);
        ctype_desc_build(&d2, alpha);
        ctype_desc_combine(&d3, &d1, &d2);
        for (int c = 0; c < 256; c++) {
            bool e1 = false;

            for (int i = 0; i < lb; i++) {
                e1 |= (byte)b[i] == c;
            }
            HK_CHECK(ctype_desc_contains(&d1, c) == e1, "ctype", "%d in [%s]",
                     c, tb);
            HK_CHECK(ctype_desc_contains(&d2, c)
                     == (c && strchr(alpha, c)), "ctype", "%d in [%s]", c,
                     alpha);
            HK_CHECK(ctype_desc_contains(&d3, c)
                     == (e1 || (c && strchr(alpha, c))), "ctype-combine",
                     "%d in [%s] [%s]", c, alpha, tb);
        }
        for (int i = 0; i < la; i++) {
            bool e1 = false;

            for (int j = 0; j < lb; j++) {
                e1 |= a[i] == b[j];
            }
            in1 &= e1;
            inn &= !e1;
            in3 &= e1 || (a[i] && strchr(alpha, a[i]));
        }
        HK_CHECK(lstr_match_ctype(x, &d1) == in1, "match_ctype",
                 "[%s] [%s]", ta, tb);
        HK_CHECK(lstr_match_ctype(x, &d3) == in3, "match_ctype",
                 "[%s] [%s]", ta, tb);
        ctype_desc_invert(&d1);
        HK_CHECK(lstr_match_ctype(x, &d1) == inn, "ctype-invert",
                 "[%s] [%s]", ta, tb);
    }

    /* edit distance */
    {
        int dist = dl_naive(a, la, b, lb), max;
        int r = lstr_dlevenshtein(x, y, -1);

        HK_CHECK(r == dist, "distance", "[%s] [%s]: %d, expected %d", ta, tb,
                 r, dist);
        max = hk_chance(1, 2) ? (int)hk_below(dist + 3)
                              : dist - 1 + (int)hk_below(3);
        if (max >= 0) {
            r = lstr_dlevenshtein(x, y, max);
            HK_CHECK(r == (dist <= max ? dist : -1), "distance-max",
                     "[%s] [%s] max %d: %d, distance %d", ta, tb, max, r,
                     dist);
            hk_count("distances_over", dist > max);
        }
        hk_count("distances", 1);
    }

    /* suffixes of texts that are not UTF-8 */
    if (hk_chance(1, 8)) {
        char bad[8] = { 'a', 'b', 0xff, 'c', 'd', 'e' };
        char *e = hk_exact(bad, 6);
        lstr_t v = LSTR_INIT_V(e, 6);

        HK_CHECK(!lstr_utf8_endswith(v, LSTR("xyz")), "utf8-endswith",
                 "an invalid text ends with xyz");
        HK_CHECK(!lstr_utf8_iendswith(v, LSTR("xyz")), "utf8-endswith",
                 "an invalid text ends with xyz (no case)");
        HK_CHECK(!lstr_utf8_endswith(LSTR("xyz"), v), "utf8-endswith",
                 "a text ends with an invalid text");
        HK_CHECK(!lstr_utf8_iendswith(LSTR("xyz"), v), "utf8-endswith",
                 "a text ends with an invalid text (no case)");
        (free)(e);
    }

    /* trims */
    {
        lstr_t t;
        int l, r;

        for (l = 0; l < la && is_space(a[l]); l++);
        for (r = la; r > 0 && is_space(a[r - 1]); r--);
        t = lstr_ltrim(x);
        same_mem("ltrim", t.s, t.len, a + l, la - l);
        t = lstr_rtrim(x);
        same_mem("rtrim", t.s, t.len, a, r);
        t = lstr_trim(x);
        n = MAX(r, l) - l;
        HK_CHECK(t.len == n && (!n || t.s == a + l), "trim", "[%s]", ta);
    }
    hk_events(20);
    (free)(ta);
    (free)(tb);
    (free)(a);
    (free)(b);
}

/* }}} */
/* {{{ copies and transformations */

static mem_pool_t *some_pool(void)
{
    return hk_chance(1, 2) ? NULL : t_pool();
}

static void check_own(const char *key, lstr_t r, mem_pool_t *mp, const char *exp,
                      int len)
{
    HK_CHECK(r.s && r.mem_pool == (mp ? mp->mem_pool & MEM_POOL_MASK
                                      : MEM_LIBC), key, "pool %d", r.mem_pool);
    same_mem(key, r.s, r.len, exp, len);
    HK_CHECK(r.s[r.len] == '\0', key, "no terminator");
}

static void run_copy(void)
{
    t_scope;
    mem_pool_t *mp = some_pool();
    char u[200], exp[700];
    int len, ulen, n;
    char *a, *b, *c, *up;
    int la, lb, lc;
    lstr_t r, x, y, z;

    la = some_len();
    lb = some_len();
    lc = some_len();
    a = hk_bytes(la);
    b = hk_bytes(lb);
    c = hk_bytes(lc);
    x = LSTR_INIT_V(a, la);
    y = LSTR_INIT_V(b, lb);
    z = LSTR_INIT_V(c, lc);
    hk_distinct(hk_hash(a, la, hk_hash(b, lb, lc)));

    /* copies own their bytes */
    r = mp_lstr_dup(mp, x);
    check_own("dup", r, mp, a, la);
    if (hk_chance(1, 2)) {
        /* a part of oneself */
        n = hk_below(la + 1);
        memcpy(exp, a + n, la - n);
        mp_lstr_copy(mp, &r, LSTR_INIT_V(r.s + n, r.len - n));
        check_own("copy-self", r, mp, exp, la - n);
    }
    mp_lstr_copy(mp, &r, y);
    check_own("copy", r, mp, b, lb);
    {
        lstr_t t = hk_chance(1, 2) ? LSTR_NULL_V : lstr_dup(z);

        lstr_transfer(&t, &r);
        check_own("transfer", t, mp, b, lb);
        HK_CHECK(r.mem_pool == MEM_STATIC && r.s == t.s, "transfer",
                 "the source still owns its bytes");
        mp_lstr_wipe(mp, &t);
        HK_CHECK(!t.s && !t.len, "wipe", "left bytes");
    }
    mp_lstr_wipe(mp, &r);
    r = mp_lstr_dups(mp, a, la);
    check_own("dups", r, mp, a, la);
    mp_lstr_copys(mp, &r, "hello", -1);
    check_own("copys", r, mp, "hello", 5);
    mp_lstr_copy(mp, &r, LSTR_NULL_V);
    HK_CHECK(!r.s && !r.len, "copy-null", "%d", r.len);
    HK_CHECK(!mp_lstr_dup(mp, LSTR_NULL_V).s, "dup-null", "not null");
    HK_CHECK(!mp_lstr_dups(mp, NULL, 4).s, "dup-null", "not null");
    mp_lstr_copys(mp, &r, a, la);
    mp_lstr_copys(mp, &r, NULL, -1);
    HK_CHECK(!r.s && !r.len, "copy-null", "%d", r.len);
    up = mp_lstr_dupz(mp, x);
    HK_CHECK(!up[la] && (!la || !(memcmp)(up, a, la)), "dupz", "bytes");
    mp_delete(mp, &up);

    /* persistence */
    r = lstr_dupc(x);
    HK_CHECK(r.mem_pool == MEM_STATIC && r.s == a, "dupc", "copied");
    mp_lstr_persists(mp, &r);
    check_own("persists", r, mp, a, la);
    HK_CHECK(r.s != a, "persists", "not copied");
    up = (char *)r.s;
    mp_lstr_persists(mp, &r);
    HK_CHECK(r.s == up, "persists", "copied twice");
    lstr_copyc(&z, LSTR_INIT_V(c, lc));
    HK_CHECK(z.s == c && z.mem_pool == MEM_STATIC, "copyc", "pool");
    mp_lstr_wipe(mp, &r);

    /* concatenations */
    memcpy(exp, a, la);
    memcpy(exp + la, b, lb);
    memcpy(exp + la + lb, c, lc);
    r = mp_lstr_cat(mp, x, y);
    check_own("cat", r, mp, exp, la + lb);
    mp_lstr_wipe(mp, &r);
    r = mp_lstr_cat3(mp, x, y, z);
    check_own("cat3", r, mp, exp, la + lb + lc);
    mp_lstr_wipe(mp, &r);
    r = mp_lstr_cat3(mp, LSTR_NULL_V, x, LSTR_NULL_V);
    check_own("cat3-null", r, mp, a, la);
    mp_lstr_wipe(mp, &r);
    HK_CHECK(!mp_lstr_cat(mp, LSTR_NULL_V, LSTR_NULL_V).s
          && !mp_lstr_cat3(mp, LSTR_NULL_V, LSTR_NULL_V, LSTR_NULL_V).s,
             "cat-null", "not null");

    /* formats */
    len = 1 + (hk_chance(1, 4) ? hk_below(500) : hk_below(8));
    memset(exp, '0', len);
    exp[len] = '|';
    memcpy(exp + len + 1, a, la);
    r = mp_lstr_fmt(mp, "%0*d|%*pM", len, 0, la, a);
    check_own("fmt", r, mp, exp, len + 1 + la);
    mp_lstr_wipe(mp, &r);

    /* reversals */
    for (int i = 0; i < la; i++) {
        exp[i] = a[la - 1 - i];
    }
    r = mp_lstr_dup_ascii_reversed(mp, x);
    check_own("reversed", r, mp, exp, la);
    lstr_ascii_reverse(&r);
    check_own("reverse", r, mp, a, la);
    mp_lstr_wipe(mp, &r);
    r = t_lstr_ascii_reverse(x);
    check_own("reverse", r, t_pool(), exp, la);
    HK_CHECK(!mp_lstr_dup_ascii_reversed(mp, LSTR_NULL_V).s, "reversed",
             "null");

    ulen = hk_utf8(u, hk_below(60));
    if (ulen && hk_chance(1, 4)) {
        int pos = hk_below(ulen);
        bool cut = hk_chance(1, 2);

        /* a truncated character or a byte that starts none */
        if (cut) {
            ulen = pos + 1;
        } else {
            u[pos] = 0x80 + hk_below(128);
        }
    }
    up = hk_exact(u, ulen);
    {
        bool valid = true;
        int i = 0, o = ulen;

        while (i < ulen && valid) {
            byte h = up[i];
            int k = h < 0x80 ? 1 : h >= 0xc0 && h < 0xe0 ? 2
                  : h >= 0xe0 && h < 0xf0 ? 3 : h >= 0xf0 && h < 0xf8 ? 4 : 0;

            if (!k || i + k > ulen) {
                valid = false;
                break;
            }
            for (int j = 1; j < k; j++) {
                valid &= ((byte)up[i + j] & 0xc0) == 0x80;
            }
            /* overlong, surrogates and beyond: see C33 */
            o -= k;
            memcpy(exp + o, up + i, k);
            i += k;
        }
        r = mp_lstr_dup_utf8_reversed(mp, LSTR_INIT_V(up, ulen));
        if (!valid) {
            HK_CHECK(!r.s, "utf8-reversed-bad", "accepted %s", sb_hex(up, ulen));
            hk_count("utf8_bad", 1);
        } else
        if (r.s) {
            lstr_t rr;

            check_own("utf8-reversed", r, mp, exp, ulen);
            rr = mp_lstr_dup_utf8_reversed(mp, r);
            check_own("utf8-reversed", rr, mp, up, ulen);
            mp_lstr_wipe(mp, &rr);
            hk_count("utf8_reversed", 1);
        } else {
            /* only the forms that the decoder refuses */
            HK_CHECK(lstr_utf8_strlen(LSTR_INIT_V(up, ulen)) < 0,
                     "utf8-reversed", "refused a valid text");
        }
        mp_lstr_wipe(mp, &r);
    }
    (free)(up);

    /* case */
    for (int up_ = 0; up_ < 2; up_++) {
        lstr_t t = up_ ? t_lstr_ascii_toupper(x) : t_lstr_ascii_tolower(x);

        HK_CHECK(t.len == la, "case", "length");
        for (int i = 0; i < la; i++) {
            int v = lo(a[i]);

            if (up_ && v >= 'a' && v <= 'z') {
                v -= 32;
            }
            HK_CHECK((byte)t.s[i] == v, "case", "%d gives %d", (byte)a[i],
                     (byte)t.s[i]);
        }
    }

    /* hexadecimal, as written by humans */
    {
        char *h = mk_text("0a 9F:-g", some_len());
        char dig[80];
        int nd = 0;

        for (const char *s = h; *s; s++) {
            if (xval(*s) >= 0) {
                dig[nd++] = *s;
            }
        }
        r = t_lstr_human_hexdecode(LSTR(h));
        if (nd % 2) {
            HK_CHECK(!r.s, "human-hex", "odd number of digits in [%s]", h);
        } else {
            HK_CHECK(r.s && r.len == nd / 2, "human-hex", "[%s]: %d", h,
                     r.len);
            for (int i = 0; i < nd / 2; i++) {
                HK_CHECK((byte)r.s[i] == xval(dig[2 * i]) * 16
                         + xval(dig[2 * i + 1]), "human-hex", "[%s]", h);
            }
        }
        (free)(h);
    }

    /* xor */
    if (lb) {
        char *o = (malloc)(la ?: 1);
        lstr_t out = LSTR_INIT_V(o, la);

        lstr_xor(x, y, out);
        for (int i = 0; i < la; i++) {
            HK_CHECK((byte)o[i] == ((byte)a[i] ^ (byte)b[i % lb]), "xor",
                     "byte %d", i);
        }
        lstr_xor(out, y, out);
        same_mem("xor-back", o, la, a, la);
        (free)(o);
    }
    hk_count("copies", 1);
    hk_events(30);
    (free)(a);
    (free)(b);
    (free)(c);
}

/* }}} */
/* {{{ ownership of a string buffer or of a file given to a lstr_t */

static void run_own(void)
{
    t_scope;
    sb_t sb;
    lstr_t dst = hk_chance(1, 2) ? LSTR_NULL_V : lstr_dups("old", 3);
    bool keep = hk_chance(2, 3);
    int kind = hk_below(3);
    int len = hk_chance(1, 6) ? 0 : some_len() * (hk_chance(1, 6) ? 50 : 1);
    int skip = hk_chance(1, 2) ? 0 : (int)hk_below(len + 1);
    char *a = hk_bytes(len);
    char store[64];
    mem_pool_t *mp;

    switch (kind) {
      case 0:
        sb_init(&sb);
        break;
      case 1:
        t_sb_init(&sb, 1 + hk_below(100));
        break;
      default:
        sb_init_full(&sb, store, 0, sizeof(store), &mem_pool_static);
        break;
    }
    sb_add(&sb, a, len);
    sb_skip(&sb, skip);
    if (len - skip == 0) {
        hk_count("own_empty", 1);
    } else
    if (skip) {
        hk_count("own_skipped", 1);
    }
    mp = sb.mp;
    lstr_transfer_sb(&dst, &sb, keep);
    same_mem("transfer-sb", dst.s, dst.len, a + skip, len - skip);
    HK_CHECK(dst.s && dst.s[dst.len] == '\0', "transfer-sb", "terminator");
    if (!keep) {
        HK_CHECK(dst.mem_pool == MEM_LIBC || !dst.len, "transfer-sb-pool",
                 "%d", dst.mem_pool);
    }
    HK_CHECK(!sb.len, "transfer-sb", "the buffer still has %d bytes", sb.len);
    /* the buffer can be used again without any effect on the string */
    sb_adds(&sb, "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxx");
    same_mem("transfer-sb-reuse", dst.s, dst.len, a + skip, len - skip);
    sb_wipe(&sb);
    same_mem("transfer-sb-reuse", dst.s, dst.len, a + skip, len - skip);
    mp_lstr_wipe(dst.mem_pool == MEM_LIBC ? NULL : mp, &dst);
    (free)(a);

    if (hk_chance(1, 16)) {
        volatile char garbage[512];
        int r;

        /* no file there */
        hk_fill((char *)garbage, sizeof(garbage));
        errno = 0;
        r = lstr_init_from_fd(&dst, -1, PROT_READ, MAP_PRIVATE);
        HK_CHECK(r < 0 && errno == EBADF, "from-fd-bad", "%d errno %d", r,
                 errno);
    }
    hk_count("transfers", 1);
    hk_distinct(hk_mix(hk_mix(len, skip), kind * 2 + keep));
    hk_events(1);
}

/* }}} */

static const hk_scenario_t scs[] = {
    { "cstr",    run_cstr,    3000000, 60000000 },
    { "words",   run_words,   3000000, 60000000 },
    { "counter", run_counter, 1500000, 30000000 },
    { "lcmp",    run_lcmp,    1500000, 30000000 },
    { "copy",    run_copy,    1500000, 30000000 },
    { "own",     run_own,     1500000, 30000000 },
};

int main(int argc, char **argv)
{
    return hk_main(argc, argv, scs, countof(scs));
}
