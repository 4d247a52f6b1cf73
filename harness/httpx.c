/* C13: hostile HTTP peers. */
#include <sys/stat.h>
#include "http.h"

/* {{{ hostile streams */

static const char * const tokens_g[] = {
    "\r\n", "\r\n\r\n", "\r", "\n", "\n\n", " ", "\t", "\r\n ", "\r\n\t", ":",
    ": ", "%", "%4", "%00", "%2e%2e/", "../", "/../../..", "//", "?", "&", "=",
    "Content-Length: 0\r\n", "Content-Length: 5\r\n", "Content-Length: -1\r\n",
    "Content-Length: 2147483647\r\n", "Content-Length: 2147483648\r\n",
    "Content-Length: 99999999999999999999\r\n", "Content-Length: 0x10\r\n",
    "Content-Length:\r\n", "Content-Length: 5 \r\n", "Content-Length: +3\r\n",
    "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: identity\r\n",
    "Transfer-Encoding: gzip, chunked\r\n", "Transfer-Encoding:\r\n",
    "Content-Encoding: gzip\r\n", "Content-Encoding: deflate\r\n",
    "Content-Encoding: identity\r\n", "Expect: 100-continue\r\n",
    "Expect: 200-ok\r\n", "Connection: close\r\n", "Connection:,,\r\n",
    "Connection: close, keep-alive\r\n", "Host:\r\n", "Host: a b\r\n",
    "Authorization: Basic\r\n", "Authorization: Basic ====\r\n",
    "Authorization: Basic dXNlcg==\r\n", "Authorization: Basic Og==\r\n",
    "Authorization: Basic dXNlcjpzZWNyZXQ=\r\n", "Authorization: x y\r\n",
    "0\r\n\r\n", "0\r\n", "00000000000000000\r\n", "ffffffffffffffff\r\n",
    "7fffffff\r\n", "7ffffffd\r\n", "80000000\r\n", "fffffffff\r\n", "5;a=b\r\n",
    "5 ;a\r\n", "5 a\r\n", "-5\r\n", "HTTP/1.1", "HTTP/1.0", "HTTP/0.9",
    "HTTP/1.", "HTTP/", "HTTP/2.0", "HTTP/999999999999.1", "HTTP/1.1 200 OK\r\n",
    "HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 204 No Content\r\n",
    "HTTP/1.1 304 Not Modified\r\n\r\n", "HTTP/1.1 99 x\r\n", "HTTP/1.1 \r\n",
    "HTTP/1.1 999999999999 x\r\n", "HTTP/1.1 200\r\n", "GET ", "POST ", "PUT ",
    "OPTIONS * HTTP/1.1\r\n", "GET / HTTP/1.1\r\n", "GET http://a",
    "GET http://a/ HTTP/1.1\r\n", "GET * HTTP/1.1\r\n", "TRACE / HTTP/1.1\r\n",
    "CONNECT a:1 HTTP/1.1\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n",
    "GET /r HTTP/1.1\r\n\r\n", "GET /b HTTP/1.1\r\nHost: a\r\n\r\n",
};

static void add_garbage(sb_t *out)
{
    int n = hk_below(hk_chance(1, 10) ? 5000 : 30);
    int c = hk_below(256);

    switch (hk_below(3)) {
      case 0:
        while (n--) {
            sb_addc(out, hk_below(256));
        }
        break;
      case 1:
        while (n--) {
            sb_addc(out, c);
        }
        break;
      default:
        while (n--) {
            sb_addc(out, hk_range(32, 126));
        }
        break;
    }
}

/* a random alteration of \p s */
static void mutate(sb_t *s)
{
    int n = hk_chance(1, 8) ? 0 : 1 + hk_below(hk_chance(1, 4) ? 30 : 4);

    while (n--) {
        int pos = hk_below(s->len + 1);
        int len = hk_below(hk_chance(1, 4) ? 400 : 8);
        const char *t = tokens_g[hk_below(countof(tokens_g))];
        const char *l;

        if (len > s->len - pos) {
            len = s->len - pos;
        }
        /* often at the start of a line */
        if (hk_chance(1, 2)
        &&  (l = memmem(s->data + pos, s->len - pos, "\r\n", 2)))
        {
            pos = l + 2 - s->data;
            if (len > s->len - pos) {
                len = s->len - pos;
            }
        }
        switch (hk_below(8)) {
          case 0:
            if (pos < s->len) {
                s->data[pos] ^= 1 << hk_below(8);
            }
            break;
          case 1:
            if (pos < s->len) {
                s->data[pos] = hk_below(256);
            }
            break;
          case 2:
            sb_splice(s, pos, len, NULL, 0);
            break;
          case 3: {
            SB(tmp, 512);

            sb_add(&tmp, s->data + pos, len);
            sb_splice(s, hk_below(s->len + 1), 0, tmp.data, tmp.len);
          } break;
          case 4: {
            SB(tmp, 6000);

            add_garbage(&tmp);
            sb_splice(s, pos, hk_chance(1, 2) ? 0 : len, tmp.data, tmp.len);
          } break;
          case 5:
            if (hk_chance(1, 4)) {
                sb_clip(s, pos);
            }
            break;
          default:
            sb_splice(s, pos, hk_chance(2, 3) ? 0 : len, t, strlen(t));
            break;
        }
    }
}

static void add_body(sb_t *out, bool response)
{
    SB(raw, 512);
    body_t b = gen_body(hk_chance(1, 20) ? 100000 : 300);
    int comp = hk_below(4);

    if (comp == CO_GZIP || comp == CO_ZLIB) {
        b = compress_body(b, comp);
        sb_addf(out, "Content-Encoding: %s\r\n",
                comp == CO_ZLIB ? "deflate" : "gzip");
    }
    if (hk_chance(1, 8) && b.len) {
        /* damaged compressed data */
        b.d[hk_below(b.len)] ^= 1 + hk_below(255);
    }
    switch (hk_below(response ? 4 : 3)) {
      case 0:
        sb_addf(out, "Content-Length: %d\r\n\r\n", b.len);
        sb_add(out, b.d, b.len);
        break;
      case 1:
        sb_addf(out, "Transfer-Encoding: chunked\r\n\r\n");
        add_chunked(out, b);
        break;
      case 2:
        sb_adds(out, "\r\n");
        break;
      default:
        sb_adds(out, "\r\n");
        sb_add(out, b.d, b.len);
        break;
    }
}

/* }}} */
/* {{{ server */

#define MAX_Q  64

typedef struct sq_t {
    httpd_query_t *q;
    int   due;
    bool  early;
} sq_t;

static struct {
    httpd_cfg_t *cfg;
    sq_t    later[MAX_Q];
    int     nlater;
    int     lap;
    int     queries;
    int     wiped;
    int     disconnects;
    bool    reply_now;
    int     small;
} s_g;

static char root_g[PATH_MAX];
static char head_g, other_g;
#define SECRET  "this-is-outside-of-the-served-directory"

static void s_reply(httpd_query_t *q)
{
    outbuf_t *ob;
    body_t b;

    if (hk_chance(1, 6)) {
        httpd_reject_(q, hk_chance(1, 2) ? 403 : 500, "no");
        return;
    }
    if (hk_chance(1, 8)) {
        httpd_reply_202accepted(q);
        return;
    }
    b = gen_body(hk_chance(1, 20) ? 100000 : 300);
    ob = httpd_reply_hdrs_start(q, HTTP_CODE_OK, hk_chance(1, 2));
    switch (hk_below(3)) {
      case 0:
        httpd_reply_hdrs_done(q, b.len, false);
        break;
      case 1:
        httpd_reply_hdrs_done(q, -1, false);
        break;
      default:
        httpd_reply_hdrs_done(q, -1, true);
        httpd_reply_chunk_start(q, ob);
        if (q->priv != &head_g) {
            ob_add(ob, b.d, b.len);
        }
        httpd_reply_chunk_done(q, ob);
        httpd_reply_done(q);
        return;
    }
    if (q->priv != &head_g) {
        ob_add(ob, b.d, b.len);
    }
    httpd_reply_done(q);
}

static void s_later(httpd_query_t *q, bool early)
{
    if (s_g.nlater < MAX_Q) {
        s_g.later[s_g.nlater].q = q;
        s_g.later[s_g.nlater].due = s_g.lap + hk_below(20);
        s_g.later[s_g.nlater].early = early;
        if (early) {
            /* the server may reject the query meanwhile */
            obj_retain(q);
        }
        s_g.nlater++;
    } else {
        s_reply(q);
    }
}

static void s_on_data(httpd_query_t *q, pstream_t ps)
{
    HK_CHECK(!q->answered, "srv-data-late", "data after the answer");
    /* read them all */
    for (uint32_t h = 0; !ps_done(&ps); ) {
        h = h * 31 + __ps_getc(&ps);
    }
}

static void s_on_done(httpd_query_t *q)
{
    HK_CHECK(!q->answered, "srv-done-late", "end of query after the answer");
    if (hk_chance(1, 2)) {
        s_reply(q);
    } else {
        s_later(q, false);
    }
}

static void s_cb(httpd_trigger_t *cb, httpd_query_t *q,
                 const httpd_qinfo_t *info)
{
    s_g.queries++;
    q->priv = info->method == HTTP_METHOD_HEAD ? &head_g : &other_g;
    hk_count("queries", 1);
    HK_CHECK(info->method >= 0 && info->method < HTTP_METHOD__MAX,
             "srv-method", "%d", info->method);
    /* every text lies in memory and holds no line end */
    for (int i = 0; i < info->hdrs_len; i++) {
        HK_CHECK(ps_len(&info->hdrs[i].key) > 0, "srv-header", "empty name");
        for (const char *s = info->hdrs[i].key.s; s < info->hdrs[i].key.s_end;
             s++)
        {
            HK_CHECK(*s != '\r' && *s != '\n' && *s != ':', "srv-header",
                     "separator in a header name");
        }
    }
    if (hk_chance(1, 3)) {
        httpd_qinfo_t *d = httpd_qinfo_dup(info);

        httpd_qinfo_delete(&d);
    }
    if (hk_chance(1, 6)) {
        s_reply(q);
        return;
    }
    if (hk_chance(1, 8)) {
        /* answer asynchronously without waiting for the body */
        s_later(q, true);
        return;
    }
    q->on_done = &s_on_done;
    if (hk_chance(1, 2)) {
        httpd_bufferize(q, hk_below(hk_chance(1, 2) ? 200 : 200000));
    } else {
        q->on_data = &s_on_data;
    }
}

static void s_auth(httpd_trigger_t *cb, httpd_query_t *q, pstream_t user,
                   pstream_t pw)
{
    for (uint32_t h = 0; !ps_done(&user); ) {
        h = h * 31 + __ps_getc(&user);
    }
    for (uint32_t h = 0; !ps_done(&pw); ) {
        h = h * 31 + __ps_getc(&pw);
    }
    if (hk_chance(1, 3)) {
        httpd_reject_unauthorized(q, LSTR("realm"));
    }
}

static void s_wipe(httpd_query_t *q)
{
    s_g.wiped += q->priv != NULL;
    for (int i = 0; i < s_g.nlater; i++) {
        if (s_g.later[i].q == q) {
            s_g.later[i] = s_g.later[--s_g.nlater];
            break;
        }
    }
}

static void s_on_disconnect(httpd_t *w)
{
    s_g.disconnects++;
}

static void s_laps(void)
{
    s_g.lap++;
    el_loop_timeout(0);
    for (int i = 0; i < s_g.nlater; i++) {
        httpd_query_t *q = s_g.later[i].q;

        if (s_g.lap >= s_g.later[i].due) {
            bool early = s_g.later[i].early;

            s_g.later[i] = s_g.later[--s_g.nlater];
            i--;
            if (q->answered) {
                HK_CHECK(early, "srv-answered", "answered by the server");
            } else
            if (early && !q->owner && !q->parsed) {
                /* abandoned by the server */
            } else
            if (!q->owner && hk_chance(1, 2)) {
                httpd_query_t *q2 = q;

                obj_release(&q2);
            } else {
                s_reply(q);
            }
            if (early) {
                obj_release(&q);
            }
        }
    }
}

static void s_cfg(void)
{
    static const char * const paths[] = { "r", "b", "b/sub", "auth" };

    s_g.cfg = httpd_cfg_new();
    s_g.cfg->pipeline_depth = 1 + hk_below(8);
    s_g.cfg->on_data_threshold = hk_chance(1, 2) ? hk_below(200) : 16 << 10;
    s_g.cfg->outbuf_max_size = 1000 + hk_below(100000);
    s_g.cfg->header_line_max = 100 + hk_below(1000);
    s_g.cfg->header_size_max = 500 + hk_below(5000);
    s_g.cfg->max_queries = 1 + hk_below(50);
    for (int t = 0; t < countof(paths); t++) {
        httpd_trigger_t *cb = httpd_trigger_new();

        cb->cb = &s_cb;
        cb->on_query_wipe = &s_wipe;
        if (t == 3) {
            httpd_trigger_set_auth(cb, &s_auth, NULL);
        }
        for (int m = 0; m < HTTP_METHOD__MAX; m++) {
            if (m != HTTP_METHOD_TRACE && m != HTTP_METHOD_CONNECT) {
                httpd_trigger_register_flags(&s_g.cfg->roots[m], paths[t], cb,
                                             true);
            }
        }
    }
    {
        httpd_trigger_t *cb = httpd_trigger__static_dir_new(root_g);

        httpd_trigger_register_flags(&s_g.cfg->roots[HTTP_METHOD_GET],
                                     "files", cb, true);
        httpd_trigger_register_flags(&s_g.cfg->roots[HTTP_METHOD_HEAD],
                                     "files", cb, true);
    }
}

static void s_setup_files(void)
{
    char path[PATH_MAX + 64];
    static const struct { const char *name; int len; } files[] = {
        { "a.txt", 10 }, { "b.html", 20000 }, { "d/c.tgz", 3 },
        { "d/e.txt.gz", 300 }, { "empty", 0 },
    };

    if (root_g[0]) {
        return;
    }
    snprintf(root_g, sizeof(root_g), "%s/root", hk_scratch_g);
    mkdir(root_g, 0755);
    snprintf(path, sizeof(path), "%s/d", root_g);
    mkdir(path, 0755);
    carray_for_each_ptr(f, files) {
        int fd;

        snprintf(path, sizeof(path), "%s/%s", root_g, f->name);
        fd = open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644);
        for (int i = 0; i < f->len; i++) {
            char c = 'a' + i % 26;

            IGNORE(write(fd, &c, 1));
        }
        close(fd);
    }
    snprintf(path, sizeof(path), "%s/secret", hk_scratch_g);
    {
        int fd = open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644);

        IGNORE(write(fd, SECRET, strlen(SECRET)));
        close(fd);
    }
    snprintf(path, sizeof(path), "%s/root-secret", hk_scratch_g);
    {
        int fd = open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644);

        IGNORE(write(fd, SECRET, strlen(SECRET)));
        close(fd);
    }
}

static void add_request(sb_t *out)
{
    static const char * const meths[] = {
        "GET", "POST", "PUT", "HEAD", "OPTIONS", "DELETE", "PATCH", "TRACE",
    };
    static const char * const paths[] = {
        "/r", "/b", "/b/sub/x", "/auth", "/none", "/", "*", "/files/a.txt",
        "/files/b.html", "/files/d/", "/files/d", "/files/", "/files",
        "/files/../secret", "/files/%2e%2e/secret", "/files/..%2fsecret",
        "/files/d/../../secret", "/files//../secret", "/files-secret",
        "/files/./../secret", "/files%2f../secret", "/files/%2e%2e%2fsecret",
        "/files../secret", "/files/d/..", "/files/d/e.txt.gz", "/files/empty",
        "/r?a=b&c", "http://h/r", "/b/%41?%42", "/../../files/../secret",
        "/files/d/c.tgz", "/files/.../secret", "/files/d/%2e%2e/%2e./secret",
        "/files/%2e%2e%00/secret", "/files/a.txt%00", "/r/files/../../secret",
    };
    const char *m = meths[hk_below(hk_chance(1, 2) ? 2 : countof(meths))];

    sb_addf(out, "%s %s HTTP/1.%d\r\n", m, paths[hk_below(countof(paths))],
            !hk_chance(1, 12));
    if (hk_chance(2, 3)) {
        sb_adds(out, "Host: h\r\n");
    }
    for (int n = hk_below(4); n > 0; n--) {
        mhdr_t h[MAX_HDR];
        int nb = gen_hdrs(h);

        if (nb) {
            put_hdr(out, &h[0], false);
        }
    }
    if (hk_chance(1, 4)) {
        sb_adds(out, "Authorization: Basic dXNlcjpzZWNyZXQ=\r\n");
    }
    if (hk_chance(1, 12)) {
        sb_adds(out, "Expect: 100-continue\r\n");
    }
    add_body(out, false);
}

/* a well behaved connection is served */
static void s_check_alive(void)
{
    SB(in, 1024);
    int sv[2];
    pmsg_t m;
    bool eof = false, ok = false;
    const char *rq = "GET /files/a.txt HTTP/1.1\r\nHost: h\r\n\r\n";

    p_clear(&m, 1);
    sb_init(&m.body);
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv) < 0) {
        hk_error("socketpair: %m");
    }
    httpd_spawn(sv[1], s_g.cfg);
    IGNORE(write(sv[0], rq, strlen(rq)));
    for (int i = 0; i < 200 && !ok && !eof; i++) {
        char buf[BUFSIZ];
        int n;

        s_laps();
        n = read(sv[0], buf, sizeof(buf));
        if (n > 0) {
            sb_add(&in, buf, n);
        } else
        if (n == 0 || errno != EAGAIN) {
            eof = true;
        }
        ok = in.len && pmsg_parse(&m, in.data, in.len, true, false, eof,
                                  "srv-alive");
    }
    HK_CHECK(ok && atoi(m.line + 9) == 200 && m.body.len == 10
             && !memcmp(m.body.data, "abcdefghij", 10), "srv-alive",
             "another connection is not served: %.*s", in.len, in.data);
    close(sv[0]);
    sb_wipe(&m.body);
}

static void s_wait_end(int fds)
{
    for (int i = 0; i < 1000; i++) {
        if (i > 3 && s_g.cfg->nb_conns == 0 && s_g.nlater == 0
        &&  s_g.wiped == s_g.queries)
        {
            break;
        }
        s_laps();
    }
    HK_CHECK(s_g.cfg->nb_conns == 0, "srv-conn-leak", "%d connections left",
             s_g.cfg->nb_conns);
    HK_CHECK(s_g.wiped == s_g.queries, "srv-query-leak", "%d queries, %d "
             "wiped", s_g.queries, s_g.wiped);
    httpd_cfg_delete(&s_g.cfg);
    HK_CHECK(count_fds() == fds, "srv-fd-leak", "%d descriptors instead of "
             "%d", count_fds(), fds);
}

static void run_server(void)
{
    SB(out, 1024);
    SB(in, 1024);
    pmsg_t m;
    int sv[2], fds, sent = 0, idle = 0;
    bool eof = false;
    int frag = hk_below(4), end = hk_below(3);
    int nb = 1 + hk_below(5);
    httpd_t *w;
    bool has_head, mutated;

    m_free_all();
    p_clear(&s_g, 1);
    p_clear(&m, 1);
    sb_init(&m.body);
    s_setup_files();
    for (int i = 0; i < nb; i++) {
        add_request(&out);
    }
    if (hk_chance(1, 30)) {
        sb_reset(&out);
        add_garbage(&out);
    }
    mutated = hk_chance(9, 10);
    if (mutated) {
        mutate(&out);
    }
    hk_distinct(hk_hash(out.data, out.len, 0));
    hk_sample("%.*s", MIN(out.len, 200), out.data);
    has_head = false;
    for (int i = 0; i + 4 <= out.len; i++) {
        has_head |= !strncasecmp(out.data + i, "HEAD", 4);
    }
    fds = count_fds();
    s_cfg();
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv) < 0) {
        hk_error("socketpair: %m");
    }
    w = httpd_spawn(sv[1], s_g.cfg);
    w->on_disconnect = &s_on_disconnect;
    while (!eof && idle < 80) {
        int l = 1 + hk_below(frag == 0 ? 3 : frag == 1 ? 60
                             : frag == 2 ? 1500 : 100000);
        int n;

        if (frag == 0 && out.len > 5000) {
            frag = 2;
        }
        if (sent < out.len) {
            if (l > out.len - sent) {
                l = out.len - sent;
            }
            n = write(sv[0], out.data + sent, l);
            if (n > 0) {
                sent += n;
                idle = 0;
            } else
            if (n < 0 && errno != EAGAIN) {
                sent = out.len;
            }
            if (sent == out.len && end == 1) {
                shutdown(sv[0], SHUT_WR);
            }
        }
        s_laps();
        if (hk_chance(2, 3) || idle > 20) {
            char buf[BUFSIZ * 2];

            n = read(sv[0], buf, sizeof(buf));
            if (n > 0) {
                sb_add(&in, buf, n);
                idle = 0;
            } else
            if (n == 0 || errno != EAGAIN) {
                eof = true;
            }
        }
        if (end == 2 && sent == out.len) {
            break;
        }
        idle++;
    }
    hk_count(eof ? "closed by the server" : "left open", 1);
    hk_count("bytes sent", sent);
    hk_count("bytes received", in.len);
    HK_CHECK(!memmem(in.data, in.len, SECRET, strlen(SECRET)), "srv-escape",
             "a file out of the served directory was sent");
    /* what was sent are well formed replies */
    if (!has_head) {
        int pos = 0;

        while (pos < in.len) {
            const char *r = in.data + pos;

            /* versions above 1.1 are echoed as is: not judged */
            if (strstart(r, "HTTP/1.", &r)
            &&  !strstart(r, "1 ", NULL) && !strstart(r, "0 ", NULL))
            {
                break;
            }
            if (!pmsg_parse(&m, in.data + pos, in.len - pos, true, false,
                            false, "srv-reply"))
            {
                break;
            }
            hk_count("replies", 1);
            pos += m.total;
        }
    }
    close(sv[0]);
    s_check_alive();
    s_wait_end(fds);
    sb_wipe(&m.body);
    hk_events(s_g.lap + sent);
}

/* }}} */
/* {{{ client */

#define MAX_C 12

typedef struct cq_t {
    httpc_query_t q;
    bool  attached;
    bool  hdrs;
    int   done;
    int   status;
    int   got;
    bool  wiped;
} cq_t;

static struct {
    httpc_t *w;
    httpc_pool_t pool;
    cq_t  q[MAX_C];
    int   nb;
} c_g;

static int c_on_hdrs(httpc_query_t *q)
{
    cq_t *c = container_of(q, cq_t, q);

    HK_CHECK(!c->done, "cli-late", "headers after the end of the query");
    c->hdrs = true;
    HK_CHECK(q->qinfo, "cli-qinfo", "no information");
    for (int i = 0; i < q->qinfo->hdrs_len; i++) {
        HK_CHECK(ps_len(&q->qinfo->hdrs[i].key) > 0, "cli-header", "empty");
    }
    return hk_chance(1, 40) ? -1 : 0;
}

static int c_on_data(httpc_query_t *q, pstream_t ps)
{
    cq_t *c = container_of(q, cq_t, q);

    HK_CHECK(!c->done, "cli-late", "data after the end of the query");
    HK_CHECK(c->hdrs, "cli-order", "data before the headers");
    c->got += ps_len(&ps);
    for (uint32_t h = 0; !ps_done(&ps); ) {
        h = h * 31 + __ps_getc(&ps);
    }
    return hk_chance(1, 60) ? -1 : 0;
}

static void c_on_done(httpc_query_t *q, httpc_status_t status)
{
    cq_t *c = container_of(q, cq_t, q);

    HK_CHECK(!c->done, "cli-twice", "a query ends twice: %d then %d",
             c->status, status);
    c->done++;
    c->status = status;
    hk_count(status == HTTPC_STATUS_OK ? "ok" : "failed", 1);
}

static void c_on_100(httpc_query_t *q)
{
}

static void run_client(void)
{
    SB(out, 1024);
    int sv[2], fds, sent = 0, idle = 0, nq;
    bool eof = false, shut = false;
    int frag = hk_below(4);
    httpc_cfg_t *cfg;

    m_free_all();
    p_clear(&c_g, 1);
    c_g.nb = 1 + hk_below(MAX_C);
    for (int i = 0; i < c_g.nb; i++) {
        static const int codes[] = { 200, 200, 200, 204, 304, 404, 500, 100 };

        sb_addf(&out, "HTTP/1.%d %d Some text\r\n", !hk_chance(1, 8),
                codes[hk_below(countof(codes))]);
        for (int n = hk_below(3); n > 0; n--) {
            mhdr_t h[MAX_HDR];

            if (gen_hdrs(h)) {
                put_hdr(&out, &h[0], false);
            }
        }
        add_body(&out, true);
    }
    if (hk_chance(1, 30)) {
        sb_reset(&out);
        add_garbage(&out);
    }
    mutate(&out);
    hk_distinct(hk_hash(out.data, out.len, 0));
    fds = count_fds();
    cfg = httpc_cfg_new();
    cfg->pipeline_depth = 1 + hk_below(8);
    cfg->on_data_threshold = hk_chance(1, 2) ? hk_below(200) : 16 << 10;
    cfg->max_queries = 1024;
    cfg->header_size_max = 500 + hk_below(5000);
    cfg->header_line_max = 100 + hk_below(1000);
    httpc_pool_init(&c_g.pool);
    c_g.pool.cfg = httpc_cfg_retain(cfg);
    c_g.pool.max_len = 1;
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv) < 0) {
        hk_error("socketpair: %m");
    }
    c_g.w = httpc_spawn(sv[1], cfg, &c_g.pool);
    nq = 0;
    while (idle < 60) {
        int l = 1 + hk_below(frag == 0 ? 3 : frag == 1 ? 60
                             : frag == 2 ? 1500 : 100000);
        char buf[BUFSIZ * 2];
        int n;

        if (frag == 0 && out.len > 5000) {
            frag = 2;
        }
        if (c_g.pool.len && nq < c_g.nb && !c_g.w->busy
        &&  c_g.w->max_queries > 0 && hk_chance(2, 3))
        {
            cq_t *c = &c_g.q[nq++];

            httpc_query_init(&c->q);
            c->q.on_hdrs = &c_on_hdrs;
            c->q.on_data = &c_on_data;
            c->q.on_done = &c_on_done;
            if (hk_chance(1, 3)) {
                httpc_bufferize(&c->q, hk_below(1000));
            }
            c->attached = true;
            if (hk_chance(1, 10)) {
                c->q.expect100cont = true;
                c->q.on_100cont = &c_on_100;
            }
            httpc_query_attach(&c->q, c_g.w);
            httpc_query_start(&c->q, hk_chance(1, 8) ? HTTP_METHOD_HEAD
                              : HTTP_METHOD_GET, LSTR("h"), LSTR("/x"));
            httpc_query_hdrs_done(&c->q, 0, false);
            httpc_query_done(&c->q);
            idle = 0;
        }
        el_loop_timeout(0);
        n = read(sv[0], buf, sizeof(buf));
        if (n > 0) {
            idle = 0;
        } else
        if (n == 0 || errno != EAGAIN) {
            eof = true;
        }
        if (sent < out.len && nq && !shut) {
            if (l > out.len - sent) {
                l = out.len - sent;
            }
            n = write(sv[0], out.data + sent, l);
            if (n > 0) {
                sent += n;
                idle = 0;
            } else
            if (n < 0 && errno != EAGAIN) {
                shut = true;
            }
        }
        if (!shut && sent == out.len && hk_chance(1, 10)) {
            shutdown(sv[0], SHUT_WR);
            shut = true;
            idle = 0;
        }
        if (eof && idle > 3) {
            break;
        }
        idle++;
    }
    close(sv[0]);
    hk_count("queries", nq);
    hk_count("bytes sent", sent);
    for (int i = 0; i < 200 && c_g.pool.len; i++) {
        el_loop_timeout(0);
    }
    HK_CHECK(c_g.pool.len == 0, "cli-conn-leak", "the connection is not "
             "closed");
    for (int i = 0; i < nq; i++) {
        HK_CHECK(c_g.q[i].done == 1, "cli-lost", "query %d of %d never ends",
                 i, nq);
        httpc_query_wipe(&c_g.q[i].q);
    }
    httpc_pool_wipe(&c_g.pool, false);
    httpc_cfg_delete(&cfg);
    HK_CHECK(count_fds() == fds, "cli-fd-leak", "%d descriptors instead of "
             "%d", count_fds(), fds);
    hk_events(sent + nq);
}

/* }}} */

static const hk_scenario_t scn[] = {
    { "server", run_server, 60000, 1500000 },
    { "client", run_client, 60000, 1500000 },
};

int main(int argc, char **argv)
{
    int rc;

    signal(SIGPIPE, SIG_IGN);
    log_set_handler(&no_log);
    MODULE_REQUIRE(http);
    el_blocker_register();
    el_loop_timeout(0);
    rc = hk_main(argc, argv, scn, countof(scn));
    m_free_all();
    MODULE_RELEASE(http);
    return rc;
}
