/* Common part of the HTTP harnesses: message generator, strict parser. */
#ifndef VERIF_HTTP_H
#define VERIF_HTTP_H

#include <sys/socket.h>
#include <sys/un.h>
#include <poll.h>
#include <fcntl.h>
#include <zlib.h>
#include <lib-common/el.h>
#include <lib-common/log.h>
#include <lib-common/unix.h>
#include <lib-common/net.h>
#include <lib-common/iop.h>
#include <lib-common/http.h>
#include "hk.h"

static __attr_printf__(2, 0)
void no_log(const log_ctx_t *ctx, const char *fmt, va_list va)
{
}

enum { FR_NONE, FR_CLEN, FR_CHUNKED, FR_CLOSE };
enum { CO_NONE, CO_GZIP, CO_ZLIB };

#define MAX_HDR  8

typedef struct mhdr_t {
    char k[40];
    char v[300];
} mhdr_t;

typedef struct body_t {
    byte *d;
    int   len;
} body_t;

/* {{{ generation */

/* memory owned by the case */
static void *case_mem_g[4096];
static int   case_nmem_g;

static void *m_alloc(size_t len)
{
    void *p = (malloc)(len + 1);

    if (case_nmem_g == countof(case_mem_g)) {
        hk_error("too many allocations");
    }
    case_mem_g[case_nmem_g++] = p;
    return p;
}

static void m_free_all(void)
{
    for (int i = 0; i < case_nmem_g; i++) {
        (free)(case_mem_g[i]);
    }
    case_nmem_g = 0;
}

static body_t gen_body(int max)
{
    body_t b;
    unsigned kind = hk_below(4);

    b.len = hk_size_edgy(max);
    b.d = m_alloc(b.len);
    if (kind == 0) {
        hk_fill(b.d, b.len);
    } else
    if (kind == 1) {
        (memset)(b.d, 'a' + hk_below(26), b.len);
    } else {
        static const char * const words[] = {
            "HTTP/1.1 200 OK\r\n\r\n", "\r\n", "0\r\n\r\n", "word ", "GET / ",
            "a", "\n", "1f\r\n",
        };
        int pos = 0;

        while (pos < b.len) {
            const char *w = words[hk_below(countof(words))];
            int l = strlen(w);

            for (int i = 0; i < l && pos < b.len; i++) {
                b.d[pos++] = w[i];
            }
        }
    }
    return b;
}

static body_t compress_body(body_t in, int comp)
{
    z_stream zs;
    body_t out;

    (memset)(&zs, 0, sizeof(zs));
    if (deflateInit2(&zs, 1 + hk_below(9), Z_DEFLATED,
                     comp == CO_GZIP ? 31 : 15, 8, Z_DEFAULT_STRATEGY)
        != Z_OK)
    {
        hk_error("deflateInit2");
    }
    out.len = deflateBound(&zs, in.len) + 64;
    out.d = m_alloc(out.len);
    zs.next_in = in.d;
    zs.avail_in = in.len;
    zs.next_out = out.d;
    zs.avail_out = out.len;
    if (deflate(&zs, Z_FINISH) != Z_STREAM_END) {
        hk_error("deflate");
    }
    out.len = zs.total_out;
    deflateEnd(&zs);
    return out;
}

static void add_chunked(sb_t *out, body_t b)
{
    int pos = 0;
    int maxc = 1 + hk_size_edgy(b.len + 10);

    while (pos < b.len) {
        int l = 1 + hk_below(maxc);

        if (l > b.len - pos) {
            l = b.len - pos;
        }
        if (hk_chance(1, 6)) {
            sb_addc(out, ' ');
        }
        if (hk_chance(1, 4)) {
            sb_addf(out, "%0*X", (int)hk_range(1, 16), l);
        } else {
            sb_addf(out, "%x", l);
        }
        if (hk_chance(1, 6)) {
            sb_adds(out, " ");
        }
        if (hk_chance(1, 5)) {
            sb_adds(out, ";ext=\"1\";b");
        }
        sb_adds(out, "\r\n");
        sb_add(out, b.d + pos, l);
        sb_adds(out, "\r\n");
        pos += l;
    }
    sb_adds(out, hk_chance(1, 4) ? "000;last\r\n" : "0\r\n");
    while (hk_chance(1, 4)) {
        sb_adds(out, "X-Trailer: some\r\n");
    }
    sb_adds(out, "\r\n");
}

static void gen_token(char *out, int max)
{
    static const char alpha[] =
        "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
        "!#$%&'*+-.^_`|~";
    int l = 1 + hk_below(max);

    for (int i = 0; i < l; i++) {
        out[i] = alpha[hk_below(sizeof(alpha) - 1)];
    }
    out[l] = '\0';
}

/* printable text without leading or trailing blanks and without double
 * blanks */
static void gen_text(char *out, int max)
{
    int l = hk_below(max);

    for (int i = 0; i < l; i++) {
        int c = hk_chance(1, 20) ? (int)hk_range(128, 255)
                                 : (int)hk_range(32, 126);

        if (c == ' ' && (i == 0 || i == l - 1 || out[i - 1] == ' ')) {
            c = '_';
        }
        out[i] = c;
    }
    out[l] = '\0';
}

static int gen_hdrs(mhdr_t *h)
{
    int n = hk_below(MAX_HDR - 1);
    static const char * const known[] = {
        "Accept", "User-Agent", "Cookie", "Content-Type", "ETag", "Via",
        "X-Forwarded-For", "Referer", "If-Match", "SOAPAction", "Date",
    };

    for (int i = 0; i < n; i++) {
        if (hk_chance(1, 2)) {
            pstrcpy(h[i].k, sizeof(h[i].k), known[hk_below(countof(known))]);
        } else {
            h[i].k[0] = 'X';
            h[i].k[1] = '-';
            gen_token(h[i].k + 2, hk_chance(1, 5) ? 36 : 6);
        }
        gen_text(h[i].v, hk_chance(1, 5) ? 250 : 20);
    }
    return n;
}

/* write a header, blanks may be folded */
static void put_hdr(sb_t *out, const mhdr_t *h, bool strict)
{
    sb_adds(out, h->k);
    sb_addc(out, ':');
    if (strict) {
        sb_addf(out, " %s\r\n", h->v);
        return;
    }
    for (int n = hk_below(3); n > 0; n--) {
        sb_addc(out, hk_chance(1, 4) ? '\t' : ' ');
    }
    for (const char *p = h->v; *p; p++) {
        if (*p == ' ' && hk_chance(1, 8)) {
            sb_adds(out, hk_chance(1, 2) ? "\r\n " : "\r\n\t \t");
        } else {
            sb_addc(out, *p);
        }
    }
    for (int n = hk_chance(1, 4) ? hk_below(3) : 0; n > 0; n--) {
        sb_addc(out, ' ');
    }
    sb_adds(out, "\r\n");
}

/* value with its blanks collapsed */
static void norm_val(char *out, int size, const char *s, int len)
{
    int n = 0;
    bool blank = false;

    for (int i = 0; i < len; i++) {
        char c = s[i];

        if (c == ' ' || c == '\t' || c == '\r' || c == '\n') {
            blank = n > 0;
            continue;
        }
        if (blank && n < size - 1) {
            out[n++] = ' ';
        }
        blank = false;
        if (n < size - 1) {
            out[n++] = c;
        }
    }
    out[n] = '\0';
}

/* }}} */
/* {{{ strict parser of what the library writes */

typedef struct pmsg_t {
    char    line[1200];
    mhdr_t  h[32];
    int     nh;
    int     fr;
    int     clen;
    int     hlen;       /* bytes of the head */
    int     total;      /* bytes of the message */
    sb_t    body;
} pmsg_t;

static const char *pmsg_hdr(const pmsg_t *m, const char *k)
{
    for (int i = 0; i < m->nh; i++) {
        if (strcasecmp(m->h[i].k, k) == 0) {
            return m->h[i].v;
        }
    }
    return NULL;
}

/* 1: complete, 0: incomplete; malformed: violation. */
static int pmsg_parse(pmsg_t *m, const char *d, int len, bool response,
                      bool head, bool eof, const char *key)
{
    const char *end = memmem(d, len, "\r\n\r\n", 4);
    const char *p = d;
    const char *v;
    int code = 0;

    sb_reset(&m->body);
    m->nh = 0;
    if (!end) {
        return 0;
    }
    m->hlen = end + 4 - d;
    for (bool first = true; p < end; first = false) {
        const char *eol = memmem(p, end + 2 - p, "\r\n", 2);
        const char *colon;
        int l = eol - p;

        HK_CHECK(!memchr(p, '\0', l), key, "NUL in a header");
        if (first) {
            HK_CHECK(l < (int)sizeof(m->line), key, "first line too long");
            memcpy(m->line, p, l);
            m->line[l] = '\0';
        } else {
            HK_CHECK(m->nh < countof(m->h), key, "too many headers");
            colon = memchr(p, ':', l);
            HK_CHECK(colon && colon > p && *p != ' ' && *p != '\t', key,
                     "bad header line: %.*s", l, p);
            HK_CHECK(colon - p < (int)sizeof(m->h[0].k), key,
                     "header name too long");
            memcpy(m->h[m->nh].k, p, colon - p);
            m->h[m->nh].k[colon - p] = '\0';
            norm_val(m->h[m->nh].v, sizeof(m->h[0].v), colon + 1,
                     eol - colon - 1);
            m->nh++;
        }
        p = eol + 2;
    }
    m->fr = response ? FR_CLOSE : FR_NONE;
    if (response) {
        HK_CHECK(strlen(m->line) >= 12
                 && (strstart(m->line, "HTTP/1.1 ", NULL)
                  || strstart(m->line, "HTTP/1.0 ", NULL)),
                 key, "bad status line: %s", m->line);
        code = atoi(m->line + 9);
    }
    if ((v = pmsg_hdr(m, "Content-Length"))) {
        char *e;

        m->fr = FR_CLEN;
        m->clen = strtol(v, &e, 10);
        HK_CHECK(!*e && m->clen >= 0, key, "Content-Length: %s", v);
    }
    if ((v = pmsg_hdr(m, "Transfer-Encoding"))) {
        HK_CHECK(strequal(v, "chunked"), key, "Transfer-Encoding: %s", v);
        HK_CHECK(m->fr != FR_CLEN, key, "chunked with a Content-Length");
        m->fr = FR_CHUNKED;
    }
    if (head || (response && (code == 204 || code == 304 || code < 200))) {
        m->fr = FR_NONE;
    }
    p = d + m->hlen;
    switch (m->fr) {
      case FR_NONE:
        break;
      case FR_CLEN:
        if (d + len - p < m->clen) {
            return 0;
        }
        sb_add(&m->body, p, m->clen);
        p += m->clen;
        break;
      case FR_CLOSE:
        if (!eof) {
            return 0;
        }
        sb_add(&m->body, p, d + len - p);
        p = d + len;
        break;
      case FR_CHUNKED:
        for (;;) {
            const char *eol = memmem(p, d + len - p, "\r\n", 2);
            char *e;
            long l;

            if (!eol) {
                HK_CHECK(d + len - p < 20, key, "endless chunk header");
                return 0;
            }
            HK_CHECK(eol > p && isxdigit((unsigned char)*p), key,
                     "bad chunk header: %.*s", (int)(eol - p), p);
            l = strtol(p, &e, 16);
            HK_CHECK(e == eol && l >= 0, key, "bad chunk header: %.*s",
                     (int)(eol - p), p);
            p = eol + 2;
            if (d + len - p < l + 2) {
                return 0;
            }
            sb_add(&m->body, p, l);
            p += l;
            HK_CHECK(p[0] == '\r' && p[1] == '\n', key,
                     "no CRLF after a chunk");
            p += 2;
            if (l == 0) {
                break;
            }
        }
        break;
    }
    m->total = p - d;
    return 1;
}

/* }}} */

static void check_body(const char *key, int id, const void *got, int glen,
                       body_t exp)
{
    int diff = 0;

    hk_events(1);
    if (glen == exp.len && (glen == 0 || !memcmp(got, exp.d, glen))) {
        return;
    }
    while (diff < glen && diff < exp.len
           && ((const byte *)got)[diff] == exp.d[diff])
    {
        diff++;
    }
    hk_violation(key, "message %d: body of %d bytes, expected %d, first "
                 "difference at %d", id, glen, exp.len, diff);
}

static int count_fds(void)
{
    int n = 0;

    for (int i = 0; i < 256; i++) {
        n += fcntl(i, F_GETFD) >= 0;
    }
    return n;
}

#endif
