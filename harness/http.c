/* C12: HTTP/1 server and client. */
#include "http.h"

static bool same(lstr_t a, lstr_t b)
{
    return a.len == b.len && (a.len == 0 || !memcmp(a.s, b.s, a.len));
}

/* {{{ server: raw client <-> httpd */

enum { W_CB, W_DONE, W_LATER };
enum { H_CLEN, H_HACK, H_CHUNKED, H_STREAM, H_204, H_REJECT, H_202, H_count };

typedef struct req_t {
    int    id;
    http_method_t method;
    int    trig;             /* expected trigger, -1: none */
    char   prefix[64];
    char   path[400];        /* what is left after the prefix, decoded */
    int    path_len;
    char   vars[80];
    bool   has_vars;
    char   host[48];
    mhdr_t h[MAX_HDR];
    int    nh;
    int    fr;
    int    comp;
    body_t body;             /* as the handler sees it */
    bool   close;
    bool   v10;
    bool   expect;
    unsigned maxsize;        /* 0: own on_data */
    bool   too_large;
    bool   auth;             /* 1: good password 2: bad */
    int    head_end;         /* offsets in the stream */
    int    end;

    /* reply */
    int    when;
    int    how;
    int    code;
    body_t reply;
    bool   dup_qinfo;
    bool   hdr_only_conn_close;

    /* observed */
    httpd_query_t *q;
    bool   seen;
    bool   done;
    bool   wiped;
    int    statuses;
    int    status;
    sb_t   got;
    bool   waiting;
    bool   streaming;
    int    spos;
    int    due;
    bool   replied;
    bool   got_resp;
    int    n100;
} req_t;

#define MAX_REQ  24

static struct {
    req_t  r[MAX_REQ];
    int    nb;
    int    last_cb;
    int    lap;
    bool   cut;              /* the peer left early */
    httpd_cfg_t *cfg;
    int    replies;
    int    disconnects;
} srv_g;

static const char * const trigs_g[] = { "t0", "t0/sub", "t1/x y", "auth" };
static httpd_trigger_t *trig_g[countof(trigs_g)];

static const char *meth_g[] = {
    [HTTP_METHOD_OPTIONS] = "OPTIONS", [HTTP_METHOD_GET] = "GET",
    [HTTP_METHOD_HEAD] = "HEAD", [HTTP_METHOD_POST] = "POST",
    [HTTP_METHOD_PUT] = "PUT", [HTTP_METHOD_DELETE] = "DELETE",
    [HTTP_METHOD_TRACE] = "TRACE", [HTTP_METHOD_CONNECT] = "CONNECT",
    [HTTP_METHOD_PATCH] = "PATCH",
};

static void add_enc(sb_t *out, const char *s, int len)
{
    for (int i = 0; i < len; i++) {
        unsigned char c = s[i];

        if (c == ' ') {
            sb_adds(out, hk_chance(1, 2) ? "+" : "%20");
        } else
        if (c == '/' || (isalnum(c) && !hk_chance(1, 10))) {
            sb_addc(out, c);
        } else
        if (strchr("-_.~!$&'()*,;:@", c) && hk_chance(1, 2)) {
            sb_addc(out, c);
        } else {
            sb_addf(out, hk_chance(1, 2) ? "%%%02x" : "%%%02X", c);
        }
    }
}

static void gen_path(req_t *r)
{
    int n = hk_below(4);
    int pos = 0;

    for (int i = 0; i < n; i++) {
        int l = 1 + hk_below(8);

        r->path[pos++] = '/';
        for (int j = 0; j < l; j++) {
            int c = hk_chance(2, 3) ? (int)hk_range('a', 'z')
                                    : (int)hk_range(1, 255);

            if (c == '/' || c == '.') {
                c = '?';
            }
            r->path[pos++] = c;
        }
    }
    r->path_len = pos;
    r->path[pos] = '\0';
}

static void gen_request(req_t *r, sb_t *out)
{
    char full[500];
    int  full_len;
    body_t raw;
    bool can_body;

    r->method = hk_below(HTTP_METHOD__MAX);
    gen_path(r);
    r->trig = hk_range(-1, countof(trigs_g) - 1);
    if (r->trig >= 0) {
        snprintf(r->prefix, sizeof(r->prefix), "/%s", trigs_g[r->trig]);
        if (r->trig == 0 && r->path_len >= 4
        &&  memcmp(r->path, "/sub", 4) == 0
        &&  (r->path[4] == '/' || r->path_len == 4))
        {
            r->path[1] = 'b';
        }
    } else {
        pstrcpy(r->prefix, sizeof(r->prefix), hk_chance(1, 2) ? "/zz" : "");
        if (!r->prefix[0] && r->path_len == 0) {
            pstrcpy(r->path, sizeof(r->path), "/");
            r->path_len = 1;
        }
        if (!r->prefix[0] && r->path[1] == 't' && r->path_len > 2) {
            r->path[1] = 'v';
        }
        if (!r->prefix[0] && r->path_len == 5
        &&  !memcmp(r->path, "/auth", 5))
        {
            r->path[1] = 'b';
        }
    }
    full_len = snprintf(full, sizeof(full), "%s", r->prefix);
    memcpy(full + full_len, r->path, r->path_len);
    full_len += r->path_len;
    if (hk_chance(1, 3)) {
        r->has_vars = true;
        gen_text(r->vars, 60);
        for (char *s = r->vars; *s; s++) {
            if (*s == ' ') {
                *s = '+';
            }
        }
    }
    snprintf(r->host, sizeof(r->host), "host%d:%d", (int)hk_below(9),
             (int)hk_below(70000));
    r->nh = gen_hdrs(r->h);
    snprintf(r->h[r->nh].k, sizeof(r->h[0].k), "X-Id");
    snprintf(r->h[r->nh].v, sizeof(r->h[0].v), "%d", r->id);
    r->nh++;
    can_body = r->method == HTTP_METHOD_POST || r->method == HTTP_METHOD_PUT
            || r->method == HTTP_METHOD_PATCH;
    r->fr = can_body || hk_chance(1, 4)
          ? (hk_chance(1, 2) ? FR_CLEN : FR_CHUNKED) : FR_NONE;
    r->close = hk_chance(1, 20);
    r->v10 = hk_chance(1, 25);
    if (r->fr != FR_NONE) {
        r->body = gen_body(hk_chance(1, 8) ? 300000 : 3000);
        r->comp = hk_chance(1, 3) ? 1 + hk_below(2) : CO_NONE;
        r->expect = hk_chance(1, 5) && !r->v10;
    }
    raw = r->comp ? compress_body(r->body, r->comp) : r->body;

    /* the handler */
    r->when = hk_below(3);
    r->how = hk_below(H_count);
    r->dup_qinfo = hk_chance(1, 2);
    r->maxsize = hk_chance(1, 2) ? 0 : r->body.len + raw.len + hk_below(100);
    if (r->maxsize == 0 && hk_chance(1, 6) && r->body.len > 1) {
        r->maxsize = 1 + hk_below(r->body.len - 1);
        r->too_large = true;
        r->when = W_DONE;
    }

    /* the text */
    while (hk_chance(1, 10)) {
        sb_adds(out, "\r\n");
    }
    sb_addf(out, "%s ", meth_g[r->method]);
    if (hk_chance(1, 10)) {
        sb_addf(out, "http%s://%s", hk_chance(1, 2) ? "s" : "", r->host);
        if (full_len == 0) {
            sb_addc(out, '/');
        }
    }
    add_enc(out, full, full_len);
    if (r->has_vars) {
        sb_addf(out, "?%s", r->vars);
    }
    sb_addf(out, " HTTP/1.%d\r\n", !r->v10);
    {
        int host_at = hk_below(r->nh + 1);
        int body_at = hk_below(r->nh + 1);

        for (int i = 0; i <= r->nh; i++) {
            if (i == host_at) {
                sb_addf(out, "Host: %s\r\n", r->host);
            }
            if (i == body_at) {
                if (r->fr == FR_CLEN) {
                    sb_addf(out, "%s: %d\r\n",
                            hk_chance(1, 3) ? "content-length"
                                            : "Content-Length", raw.len);
                } else
                if (r->fr == FR_CHUNKED) {
                    /* any length is ignored */
                    bool clen = hk_chance(1, 8), first = hk_chance(1, 2);
                    int n = hk_below(2) * MIN(r->maxsize ?: 3, 40);

                    if (clen && first) {
                        sb_addf(out, "Content-Length: %d\r\n", n);
                    }
                    sb_addf(out, "Transfer-Encoding: chunked\r\n");
                    if (clen && !first) {
                        sb_addf(out, "Content-Length: %d\r\n", n);
                    }
                }
                if (r->comp) {
                    sb_addf(out, "Content-Encoding: %s\r\n",
                            r->comp == CO_ZLIB ? "deflate"
                            : hk_chance(1, 2) ? "gzip" : "x-gzip");
                }
                if (r->expect) {
                    sb_addf(out, "Expect: 100-continue\r\n");
                }
                if (r->close) {
                    sb_addf(out, "Connection: %s\r\n",
                            hk_chance(1, 2) ? "close" : "foo, Close");
                }
                if (hk_chance(1, 8)) {
                    sb_addf(out, "Connection: %s\r\n",
                            hk_chance(1, 2) ? "keep-alive" : "x-opt");
                }
                if (r->trig == 3) {
                    sb_addf(out, "Authorization: Basic %s\r\n",
                            "dXNlcjpzZWNyZXQ=");
                }
            }
            if (i < r->nh) {
                put_hdr(out, &r->h[i], false);
            }
        }
    }
    sb_adds(out, "\r\n");
    r->head_end = out->len;
    if (r->fr == FR_CLEN) {
        sb_add(out, raw.d, raw.len);
    } else
    if (r->fr == FR_CHUNKED) {
        add_chunked(out, raw);
    }
    r->end = out->len;

    /* the answer the peer must get */
    if (r->method == HTTP_METHOD_TRACE) {
        r->how = H_REJECT;
        r->code = HTTP_CODE_METHOD_NOT_ALLOWED;
        r->trig = -1;
    } else
    if (r->method == HTTP_METHOD_CONNECT) {
        /* no trigger can be registered */
        r->how = H_REJECT;
        r->code = HTTP_CODE_NOT_IMPLEMENTED;
        r->trig = -1;
    } else
    if (r->trig < 0) {
        r->how = H_REJECT;
        r->code = HTTP_CODE_NOT_FOUND;
    } else
    if (r->too_large) {
        r->how = H_REJECT;
        r->code = HTTP_CODE_REQUEST_ENTITY_TOO_LARGE;
    } else
    switch (r->how) {
      case H_204:
        r->code = HTTP_CODE_NO_CONTENT;
        break;
      case H_202:
        r->code = HTTP_CODE_ACCEPTED;
        break;
      case H_REJECT:
        r->code = hk_chance(1, 2) ? HTTP_CODE_FORBIDDEN
                                  : HTTP_CODE_INTERNAL_SERVER_ERROR;
        break;
      default:
        r->code = hk_chance(1, 2) ? HTTP_CODE_OK : HTTP_CODE_NOT_FOUND;
        r->reply = gen_body(hk_chance(1, 10) ? 200000 : 2000);
        break;
    }
}

static void srv_reply(req_t *r)
{
    httpd_query_t *q = r->q;
    bool head = r->method == HTTP_METHOD_HEAD;
    outbuf_t *ob;

    r->replied = true;
    srv_g.replies++;
    r->q = NULL;
    switch (r->how) {
      case H_REJECT:
        httpd_reject_(q, r->code, "reject %d", r->id);
        return;
      case H_202:
        httpd_reply_202accepted(q);
        return;
    }
    ob = httpd_reply_hdrs_start(q, r->code, hk_chance(1, 4));
    ob_addf(ob, "X-Reply: %d\r\n", r->id);
    switch (r->how) {
      case H_204:
        httpd_reply_hdrs_done(q, 0, false);
        break;
      case H_CLEN:
        httpd_reply_hdrs_done(q, r->reply.len, false);
        if (!head) {
            ob_add(ob, r->reply.d, r->reply.len);
        }
        break;
      case H_HACK:
        httpd_reply_hdrs_done(q, -1, false);
        if (!head) {
            ob_add(ob, r->reply.d, r->reply.len);
        }
        break;
      case H_CHUNKED:
        httpd_reply_hdrs_done(q, -1, true);
        for (int pos = 0; !head && pos < r->reply.len; ) {
            int l = hk_below(hk_chance(1, 2) ? 100000 : 300);

            if (l > r->reply.len - pos) {
                l = r->reply.len - pos;
            }
            ob = httpd_get_ob(q);
            httpd_reply_chunk_start(q, ob);
            ob_add(ob, r->reply.d + pos, l);
            httpd_reply_chunk_done(q, ob);
            pos += l;
        }
        break;
      case H_STREAM:
        httpd_reply_hdrs_done(q, -1, true);
        r->q = q;
        r->streaming = true;
        r->spos = head ? r->reply.len : 0;
        return;
    }
    if (head && r->how != H_204) {
        /* no body was written */
    }
    httpd_reply_done(q);
}

static void srv_stream(req_t *r)
{
    httpd_query_t *q = r->q;
    outbuf_t *ob;
    int l = hk_below(hk_chance(1, 3) ? 50000 : 500);

    if (!q->owner) {
        r->streaming = false;
        r->q = NULL;
        obj_release(&q);
        return;
    }
    if (l > r->reply.len - r->spos) {
        l = r->reply.len - r->spos;
    }
    if (l) {
        ob = httpd_get_ob(q);
        httpd_reply_chunk_start(q, ob);
        ob_add(ob, r->reply.d + r->spos, l);
        httpd_reply_chunk_done(q, ob);
        httpd_signal_write(q);
        r->spos += l;
    }
    if (r->spos == r->reply.len && hk_chance(2, 3)) {
        r->streaming = false;
        r->q = NULL;
        httpd_reply_done(q);
    }
}

static void check_qinfo(req_t *r, const httpd_qinfo_t *i)
{
    int n = 0;

    HK_CHECK(i->method == r->method, "srv-method", "request %d: %d, expected"
             " %d", r->id, i->method, r->method);
    HK_CHECK(i->http_version == (r->v10 ? HTTP_1_0 : HTTP_1_1),
             "srv-version", "request %d: %x", r->id, i->http_version);
    HK_CHECK(same(LSTR_PS_V(&i->host), LSTR(r->host)), "srv-host",
             "request %d: `%.*s` instead of `%s`", r->id,
             (int)ps_len(&i->host), i->host.s, r->host);
    HK_CHECK(same(LSTR_PS_V(&i->prefix), LSTR(r->prefix)),
             "srv-prefix", "request %d: `%.*s` instead of `%s`", r->id,
             (int)ps_len(&i->prefix), i->prefix.s, r->prefix);
    HK_CHECK(same(LSTR_PS_V(&i->query),
                        LSTR_INIT_V(r->path, r->path_len)),
             "srv-path", "request %d: `%.*s` instead of `%s`", r->id,
             (int)ps_len(&i->query), i->query.s, r->path);
    HK_CHECK(same(LSTR_PS_V(&i->vars), LSTR(r->vars)),
             "srv-vars", "request %d: `%.*s` instead of `%s`", r->id,
             (int)ps_len(&i->vars), i->vars.s, r->vars);
    for (int j = 0; j < i->hdrs_len; j++) {
        char v[300];
        const http_qhdr_t *h = &i->hdrs[j];
        lstr_t k = LSTR_PS_V(&h->key);

        HK_CHECK(h->wkhdr == http_wkhdr_from_ps(h->key), "srv-header",
                 "request %d: header %.*s", r->id, k.len, k.s);
        if (lstr_ascii_iequal(k, LSTR("Content-Length"))
        ||  lstr_ascii_iequal(k, LSTR("Transfer-Encoding"))
        ||  lstr_ascii_iequal(k, LSTR("Expect"))
        ||  lstr_ascii_iequal(k, LSTR("Authorization"))
        ||  lstr_ascii_iequal(k, LSTR("Connection")))
        {
            continue;
        }
        norm_val(v, sizeof(v), h->val.s, ps_len(&h->val));
        HK_CHECK(n < r->nh && lstr_equal(k, LSTR(r->h[n].k))
                 && strequal(v, r->h[n].v), "srv-header",
                 "request %d: header %d is `%.*s: %s`, expected `%s: %s`",
                 r->id, n, k.len, k.s, v, n < r->nh ? r->h[n].k : "(none)",
                 n < r->nh ? r->h[n].v : "");
        n++;
    }
    HK_CHECK(n == r->nh, "srv-header", "request %d: %d headers instead of %d",
             r->id, n, r->nh);
}

static void srv_on_data(httpd_query_t *q, pstream_t ps)
{
    req_t *r = q->priv;

    HK_CHECK(!r->done && !r->wiped, "srv-data-late", "request %d", r->id);
    sb_add(&r->got, ps.s, ps_len(&ps));
}

static void srv_on_done(httpd_query_t *q)
{
    req_t *r = q->priv;

    HK_CHECK(!r->done && !r->wiped, "srv-done-twice", "request %d", r->id);
    r->done = true;
    HK_CHECK(!r->too_large, "srv-too-large", "request %d: body of %d bytes "
             "accepted with a limit of %u", r->id, r->body.len, r->maxsize);
    if (r->maxsize) {
        check_body("srv-body", r->id, q->payload.data, q->payload.len,
                   r->body);
    } else {
        check_body("srv-body", r->id, r->got.data, r->got.len, r->body);
    }
    if (r->dup_qinfo) {
        check_qinfo(r, q->qinfo);
    }
    if (r->when == W_DONE) {
        srv_reply(r);
    } else {
        r->waiting = true;
        r->due = srv_g.lap + hk_below(20);
    }
}

static void srv_cb(httpd_trigger_t *cb, httpd_query_t *q,
                   const httpd_qinfo_t *info)
{
    const http_qhdr_t *h;
    req_t *r;
    int id;

    h = http_qhdr_find_from_key(info->hdrs, info->hdrs_len, LSTR("X-Id"));
    HK_CHECK(h, "srv-header", "no X-Id header");
    id = memtoip(h->val.b, ps_len(&h->val), NULL);
    HK_CHECK(id >= 0 && id < srv_g.nb, "srv-header", "X-Id %d", id);
    r = &srv_g.r[id];
    HK_CHECK(!r->seen, "srv-twice", "request %d handled twice", id);
    HK_CHECK(r->trig >= 0 && cb == trig_g[r->trig], "srv-trigger",
             "request %d handled by the wrong trigger", id);
    HK_CHECK(id > srv_g.last_cb, "srv-order", "request %d after %d", id,
             srv_g.last_cb);
    /* the previous request was received in full */
    for (int i = 0; i < id; i++) {
        req_t *o = &srv_g.r[i];

        HK_CHECK(!o->seen || o->done || o->when == W_CB || o->too_large,
                 "srv-order", "request %d starts before the end of %d", id,
                 i);
    }
    srv_g.last_cb = id;
    r->seen = true;
    r->q = q;
    q->priv = r;
    check_qinfo(r, info);
    HK_CHECK(q->owner, "srv-owner", "request %d: no owner", id);
    if (r->dup_qinfo) {
        httpd_qinfo_t *d = httpd_qinfo_dup(info);

        check_qinfo(r, d);
        q->qinfo = d;
    }
    if (r->when == W_CB) {
        srv_reply(r);
        return;
    }
    q->on_done = &srv_on_done;
    if (r->maxsize) {
        httpd_bufferize(q, r->maxsize);
    } else {
        q->on_data = &srv_on_data;
    }
}

static void srv_auth(httpd_trigger_t *cb, httpd_query_t *q, pstream_t user,
                     pstream_t pw)
{
    HK_CHECK(same(LSTR_PS_V(&user), LSTR("user"))
             && same(LSTR_PS_V(&pw), LSTR("secret")), "srv-auth",
             "`%.*s` `%.*s`", (int)ps_len(&user), user.s, (int)ps_len(&pw),
             pw.s);
}

static void srv_wipe(httpd_query_t *q)
{
    req_t *r = q->priv;

    if (r) {
        HK_CHECK(!r->wiped, "srv-wiped-twice", "request %d", r->id);
        r->wiped = true;
        r->q = NULL;
        r->waiting = false;
        r->streaming = false;
    }
}

static __attr_printf__(4, 0)
void srv_on_status(httpd_t *w, const struct httpd_query_t *q, int status,
                   const char *fmt, va_list va)
{
    req_t *r = q->priv;

    if (r) {
        HK_CHECK(r->statuses == 0, "srv-status-twice", "request %d: %d then "
                 "%d", r->id, r->status, status);
        r->statuses++;
        r->status = status;
    }
}

static void srv_on_disconnect(httpd_t *w)
{
    srv_g.disconnects++;
}

static void srv_laps(void)
{
    srv_g.lap++;
    el_loop_timeout(0);
    for (int i = 0; i < srv_g.nb; i++) {
        req_t *r = &srv_g.r[i];

        if (r->waiting && srv_g.lap >= r->due) {
            r->waiting = false;
            if (!r->q->owner && hk_chance(1, 2)) {
                httpd_query_t *q = r->q;

                obj_release(&q);
            } else {
                srv_reply(r);
            }
        } else
        if (r->streaming && hk_chance(1, 2)) {
            srv_stream(r);
        }
    }
}

static httpd_cfg_t *srv_cfg_new(void)
{
    httpd_cfg_t *cfg = httpd_cfg_new();

    cfg->pipeline_depth = hk_chance(1, 3) ? 1 + hk_below(3) : 32;
    cfg->on_data_threshold = hk_chance(1, 2) ? hk_below(200) : 16 << 10;
    cfg->outbuf_max_size = hk_chance(1, 3) ? 1000 + hk_below(9000) : 32 << 20;
    cfg->header_line_max = 1024;
    cfg->header_size_max = hk_chance(1, 2) ? 64 << 10 : 6000;
    return cfg;
}

static void srv_register(httpd_cfg_t *cfg)
{
    for (int t = 0; t < countof(trigs_g); t++) {
        httpd_trigger_t *cb = httpd_trigger_new();

        cb->cb = &srv_cb;
        cb->on_query_wipe = &srv_wipe;
        if (t == 3) {
            httpd_trigger_set_auth(cb, &srv_auth, NULL);
        }
        trig_g[t] = cb;
        for (int m = 0; m < HTTP_METHOD__MAX; m++) {
            if (m != HTTP_METHOD_TRACE && m != HTTP_METHOD_CONNECT) {
                httpd_trigger_register_flags(&cfg->roots[m], trigs_g[t], cb,
                                             true);
            }
        }
    }
}

static void make_pair(int sv[2], bool small)
{
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sv) < 0) {
        hk_error("socketpair: %m");
    }
    if (small) {
        int sz = 4096;

        setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
        setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof(sz));
    }
}

static void run_server(void)
{
    SB(out, 1024);
    SB(in, 1024);
    pmsg_t m;
    int sv[2];
    int sent = 0, limit, laps = 0;
    int expected = 0;       /* next request whose answer is expected */
    int last;               /* requests up to there are served */
    bool eof = false, cut;
    int fds;
    httpd_t *w;
    int pending100 = -1;
    unsigned frag = 1 + hk_below(4);
    uint64_t h = 0;
    int idle = 0;

    m_free_all();
    p_clear(&srv_g, 1);
    p_clear(&m, 1);
    sb_init(&m.body);
    srv_g.last_cb = -1;
    srv_g.nb = 1 + hk_below(hk_chance(1, 3) ? MAX_REQ : 6);
    for (int i = 0; i < srv_g.nb; i++) {
        srv_g.r[i].id = i;
        sb_init(&srv_g.r[i].got);
        gen_request(&srv_g.r[i], &out);
        h = hk_mix(h, srv_g.r[i].how * 100 + srv_g.r[i].when * 10
                   + srv_g.r[i].fr);
    }
    for (int i = 0; i < srv_g.nb; i++) {
        req_t *r = &srv_g.r[i];

        hk_trace("%d: %s trig=%d fr=%d comp=%d body=%d when=%d how=%d code=%d"
                 " reply=%d close=%d v10=%d expect=%d max=%u%s head=%d end=%d",
                 i, meth_g[r->method], r->trig, r->fr, r->comp, r->body.len,
                 r->when, r->how, r->code, r->reply.len, r->close, r->v10,
                 r->expect, r->maxsize, r->too_large ? " too large" : "",
                 r->head_end, r->end);
    }
    h = hk_mix(h, out.len);
    fds = count_fds();
    srv_g.cfg = srv_cfg_new();
    srv_register(srv_g.cfg);
    srv_g.cfg->max_queries = hk_chance(1, 5) ? 1 + hk_below(5) : 1024;
    make_pair(sv, hk_chance(1, 2));
    w = httpd_spawn(sv[1], srv_g.cfg);
    w->on_status = &srv_on_status;
    w->on_disconnect = &srv_on_disconnect;

    hk_trace("depth=%d threshold=%u outbuf=%u queries=%u",
             srv_g.cfg->pipeline_depth, srv_g.cfg->on_data_threshold,
             srv_g.cfg->outbuf_max_size, srv_g.cfg->max_queries);
    last = srv_g.nb;
    for (int i = 0; i < srv_g.nb; i++) {
        if (srv_g.r[i].close || srv_g.r[i].v10
        ||  i + 1 == (int)srv_g.cfg->max_queries)
        {
            last = i + 1;
            break;
        }
    }
    cut = hk_chance(1, 6);
    limit = cut ? (int)hk_below(out.len + 1) : out.len;

    while (!eof && (expected < last
                    || (!cut && sent < limit && sent < srv_g.r[last - 1].end)))
    {
        int n;

        /* write a piece */
        if (sent < limit) {
            int l = 1 + hk_below(frag == 1 ? 3 : frag == 2 ? 60
                                 : frag == 3 ? 1500 : 100000);
            int stop = limit;

            /* wait for the 100 Continue */
            for (int i = 0; i < last; i++) {
                req_t *r = &srv_g.r[i];

                if (r->expect && sent <= r->head_end && r->head_end < r->end
                &&  r->head_end < stop && !r->n100 && r->trig >= 0
                &&  !r->too_large && r->when != W_CB)
                {
                    stop = r->head_end;
                    pending100 = i;
                    break;
                }
            }
            if (l > stop - sent) {
                l = stop - sent;
            }
            if (frag == 1 && out.len > 20000) {
                frag = 3;
            }
            n = l ? write(sv[0], out.data + sent, l) : 0;
            if (n < 0 && errno != EAGAIN) {
                HK_CHECK(errno == EPIPE || errno == ECONNRESET, "srv-write",
                         "%m");
                limit = sent;
            }
            if (n > 0) {
                sent += n;
                idle = 0;
            }
        } else
        if (cut) {
            break;
        }
        if (hk_chance(2, 3) || sent == limit) {
            srv_laps();
        }
        /* read */
        if (hk_chance(1, 2) || idle > 50) {
            char buf[BUFSIZ * 4];

            n = read(sv[0], buf, 1 + hk_below(sizeof(buf)));
            if (n > 0) {
                sb_add(&in, buf, n);
                idle = 0;
            } else
            if (n == 0 || errno != EAGAIN) {
                eof = true;
            }
        }
        idle++;
        laps++;
        while (in.len && expected < last) {
            req_t *r = &srv_g.r[expected];
            int code;

            if (!pmsg_parse(&m, in.data, in.len, true,
                            r->method == HTTP_METHOD_HEAD, eof, "srv-reply"))
            {
                break;
            }
            code = atoi(m.line + 9);
            if (code == 100) {
                HK_CHECK(r->expect && !r->n100, "srv-100",
                         "unexpected 100 Continue for request %d", r->id);
                r->n100++;
                pending100 = -1;
                sb_skip(&in, m.total);
                continue;
            }
            HK_CHECK(r->trig < 0 || r->replied || r->too_large,
                     "srv-reply-early", "a reply to request %d was read "
                     "before it was written", r->id);
            HK_CHECK(code == r->code, "srv-code", "request %d: got %d, "
                     "expected %d", r->id, code, r->code);
            if (r->how == H_REJECT) {
                char txt[32];

                snprintf(txt, sizeof(txt), "<p>reject %d</p>", r->id);
                HK_CHECK(r->trig < 0 || r->too_large
                         || r->method == HTTP_METHOD_HEAD
                         || strstr(m.body.data, txt), "srv-reply-body",
                         "request %d: `%s`", r->id, m.body.data);
            } else {
                body_t none = { NULL, 0 };

                if (r->how != H_202) {
                    const char *v = pmsg_hdr(&m, "X-Reply");

                    HK_CHECK(v && atoi(v) == r->id, "srv-reply-owner",
                             "request %d got the reply to %s", r->id,
                             v ?: "none");
                }
                check_body("srv-reply-body", r->id, m.body.data, m.body.len,
                           r->method == HTTP_METHOD_HEAD || r->how == H_204
                           || r->how == H_202 ? none : r->reply);
            }
            HK_CHECK(m.fr != FR_CLOSE || (r->v10 && expected == last - 1),
                     "srv-reply", "reply %d is ended by the closure", r->id);
            r->got_resp = true;
            sb_skip(&in, m.total);
            expected++;
            hk_count("replies", 1);
        }
        HK_CHECK(idle < 4000, "srv-stalled", "stalled: %d of %d bytes sent, "
                 "%d of %d replies%s", sent, out.len, expected, last,
                 pending100 >= 0 ? ", waiting for a 100 Continue" : "");
    }
    if (!cut) {
        HK_CHECK(expected == last, "srv-closed", "closed after %d of %d "
                 "replies", expected, last);
        HK_CHECK(in.len == 0, "srv-reply", "%d bytes after the last reply: "
                 "%.*s", in.len, in.len, in.data);
        if (last < srv_g.nb || srv_g.r[last - 1].close
        ||  srv_g.r[last - 1].v10)
        {
            /* the server must close by itself */
            for (int i = 0; i < 200 && !eof; i++) {
                char buf[100];
                int n;

                srv_laps();
                n = read(sv[0], buf, sizeof(buf));
                HK_CHECK(n <= 0, "srv-reply", "data after the last reply");
                eof = n == 0 || (n < 0 && errno != EAGAIN);
            }
            HK_CHECK(eof, "srv-not-closed", "the connection is not closed "
                     "after the last reply");
        }
    } else {
        hk_count("cuts", 1);
    }
    close(sv[0]);
    for (int i = 0; i < 1000; i++) {
        bool left = srv_g.cfg->nb_conns != 0;

        for (int j = 0; j < srv_g.nb; j++) {
            left |= srv_g.r[j].seen && !srv_g.r[j].wiped;
        }
        if (!left && i > 3) {
            break;
        }
        srv_laps();
    }
    HK_CHECK(srv_g.cfg->nb_conns == 0 && srv_g.disconnects == 1,
             "srv-conn-leak", "%d connections left, %d disconnections",
             srv_g.cfg->nb_conns, srv_g.disconnects);
    for (int i = 0; i < srv_g.nb; i++) {
        req_t *r = &srv_g.r[i];

        if (i >= last || r->end > sent) {
            HK_CHECK(!r->done, "srv-done", "request %d is done, but was not "
                     "sent in full (or after the last one)", i);
        }
        if (r->seen) {
            HK_CHECK(r->wiped, "srv-query-leak", "request %d is never wiped",
                     i);
            HK_CHECK(r->statuses == 1, "srv-status", "request %d ended %d "
                     "times", i, r->statuses);
            hk_count("handled", 1);
        }
        HK_CHECK(!r->got_resp || r->trig < 0 || r->seen, "srv-reply-owner",
                 "request %d", i);
        sb_wipe(&r->got);
    }
    httpd_cfg_delete(&srv_g.cfg);
    sb_wipe(&m.body);
    HK_CHECK(count_fds() == fds, "srv-fd-leak", "%d descriptors, %d before",
             count_fds(), fds);
    hk_distinct(h);
}

/* }}} */
/* {{{ client: httpc <-> raw server */

typedef struct cq_t {
    httpc_query_t q;
    int    id;
    http_method_t method;
    char   uri[200];
    mhdr_t h[MAX_HDR];
    int    nh;
    int    fr;
    bool   hack;
    body_t body;
    bool   expect;
    int    spos;            /* of the body being sent */
    bool   headed;
    bool   sent;            /* fully serialized */
    bool   continued;
    unsigned maxsize;

    /* the response */
    int    code;
    char   reason[60];
    mhdr_t rh[MAX_HDR];
    int    nrh;
    int    rfr;
    int    rcomp;
    body_t rbody;
    bool   rclose;
    int    interim;
    bool   too_large;
    int    rstart, rhead, rend;   /* offsets in the stream of responses */

    bool   attached;
    bool   seen;            /* by the raw server */
    int    hdrs;
    bool   done;
    int    status;
    sb_t   got;
} cq_t;

#define MAX_CQ  16

static struct {
    cq_t   r[MAX_CQ];
    int    nb;
    httpc_t *w;
    httpc_pool_t pool;
    int    done;
    int    ok_order;
    int    cur;             /* the query being sent */
} cli_g;

static int cli_on_hdrs(httpc_query_t *q)
{
    cq_t *r = container_of(q, cq_t, q);
    int n = 0;

    HK_CHECK(!r->done && r->hdrs == 0, "cli-hdrs-twice", "query %d", r->id);
    r->hdrs++;
    HK_CHECK((int)q->qinfo->code == r->code, "cli-code", "query %d: %d, "
             "expected %d", r->id, q->qinfo->code, r->code);
    HK_CHECK(same(LSTR_PS_V(&q->qinfo->reason), LSTR(r->reason)),
             "cli-reason", "query %d: `%.*s` instead of `%s`", r->id,
             (int)ps_len(&q->qinfo->reason), q->qinfo->reason.s, r->reason);
    for (int j = 0; j < q->qinfo->hdrs_len; j++) {
        char v[300];
        const http_qhdr_t *h = &q->qinfo->hdrs[j];
        lstr_t k = LSTR_PS_V(&h->key);

        if (lstr_ascii_iequal(k, LSTR("Content-Length"))
        ||  lstr_ascii_iequal(k, LSTR("Transfer-Encoding"))
        ||  lstr_ascii_iequal(k, LSTR("Connection")))
        {
            continue;
        }
        norm_val(v, sizeof(v), h->val.s, ps_len(&h->val));
        HK_CHECK(n < r->nrh && lstr_equal(k, LSTR(r->rh[n].k))
                 && strequal(v, r->rh[n].v), "cli-header",
                 "query %d: header %d is `%.*s: %s`, expected `%s: %s`",
                 r->id, n, k.len, k.s, v, n < r->nrh ? r->rh[n].k : "(none)",
                 n < r->nrh ? r->rh[n].v : "");
        n++;
    }
    HK_CHECK(n == r->nrh, "cli-header", "query %d: %d headers instead of %d",
             r->id, n, r->nrh);
    return 0;
}

static int cli_on_data(httpc_query_t *q, pstream_t ps)
{
    cq_t *r = container_of(q, cq_t, q);

    HK_CHECK(!r->done && r->hdrs == 1, "cli-data", "query %d", r->id);
    sb_add(&r->got, ps.s, ps_len(&ps));
    return 0;
}

static void cli_on_done(httpc_query_t *q, httpc_status_t status)
{
    cq_t *r = container_of(q, cq_t, q);

    HK_CHECK(!r->done, "cli-done-twice", "query %d: %d then %d", r->id,
             r->status, status);
    r->done = true;
    r->status = status;
    cli_g.done++;
    if (status == HTTPC_STATUS_OK) {
        HK_CHECK(r->hdrs == 1, "cli-done", "query %d has no headers", r->id);
        HK_CHECK(r->id > cli_g.ok_order, "cli-order", "query %d after %d",
                 r->id, cli_g.ok_order);
        cli_g.ok_order = r->id;
        if (r->maxsize) {
            sb_addsb(&r->got, &q->payload);
        }
    }
    if (cli_g.cur == r->id) {
        cli_g.cur = -1;
    }
    httpc_query_wipe(q);
}

static void cli_on_100cont(httpc_query_t *q)
{
    cq_t *r = container_of(q, cq_t, q);

    HK_CHECK(!r->continued && r->expect, "cli-100", "query %d", r->id);
    r->continued = true;
}

static void gen_query(cq_t *r, sb_t *out)
{
    static const http_method_t methods[] = {
        HTTP_METHOD_GET, HTTP_METHOD_POST, HTTP_METHOD_PUT,
        HTTP_METHOD_DELETE, HTTP_METHOD_OPTIONS, HTTP_METHOD_PATCH,
        HTTP_METHOD_HEAD,
    };
    static const int codes[] = {
        200, 200, 200, 201, 204, 206, 299, 301, 304, 400, 404, 500, 599,
    };
    body_t raw;
    int l;

    r->method = methods[hk_below(countof(methods))];
    r->uri[0] = '/';
    l = hk_below(30);
    for (int i = 1; i <= l; i++) {
        r->uri[i] = hk_range(33, 126);
        if (strchr("%+?/.#", r->uri[i])) {
            r->uri[i] = 'u';
        }
    }
    r->nh = gen_hdrs(r->h);
    for (int i = 0; i < r->nh; i++) {
        if (strequal(r->h[i].k, "Date")) {
            r->h[i].k[0] = 'F';
        }
    }
    r->fr = r->method == HTTP_METHOD_POST || r->method == HTTP_METHOD_PUT
         || r->method == HTTP_METHOD_PATCH
          ? (hk_chance(1, 2) ? FR_CLEN : FR_CHUNKED) : FR_CLEN;
    if (r->method == HTTP_METHOD_POST || r->method == HTTP_METHOD_PUT) {
        r->body = gen_body(hk_chance(1, 8) ? 100000 : 2000);
        /* the head of a chunked request ends with its first chunk: nobody
         * would answer before the inactivity delay */
        r->expect = hk_chance(1, 5) && r->fr == FR_CLEN;
    }
    r->hack = hk_chance(1, 2) && r->fr == FR_CLEN && !r->expect;

    r->code = codes[hk_below(countof(codes))];
    gen_text(r->reason, 30);
    r->nrh = gen_hdrs(r->rh);
    r->rfr = hk_chance(1, 2) ? FR_CLEN : FR_CHUNKED;
    if (hk_chance(1, 15)) {
        r->rfr = FR_CLOSE;
    }
    r->rclose = hk_chance(1, 15);
    r->rbody = gen_body(hk_chance(1, 8) ? 300000 : 3000);
    r->rcomp = hk_chance(1, 3) ? 1 + hk_below(2) : CO_NONE;
    if (r->code == 204 || r->code == 304 || r->method == HTTP_METHOD_HEAD) {
        if (r->rfr == FR_CLOSE || r->code == 204) {
            r->rfr = FR_NONE;
        }
        if (r->rfr == FR_NONE) {
            r->rcomp = CO_NONE;
        }
    }
    raw = r->rcomp ? compress_body(r->rbody, r->rcomp) : r->rbody;
    r->maxsize = hk_chance(1, 2) ? 0 : r->rbody.len + 1 + hk_below(100);
    if (hk_chance(1, 20) && r->rbody.len > 1 && r->rfr != FR_NONE
    &&  r->code != 304 && r->method != HTTP_METHOD_HEAD)
    {
        r->maxsize = 1 + hk_below(r->rbody.len - 1);
        r->too_large = true;
    }

    r->rstart = out->len;
    if (r->expect) {
        r->interim++;
        sb_adds(out, "HTTP/1.1 100 Continue\r\n\r\n");
    }
    while (hk_chance(1, 8)) {
        sb_adds(out, hk_chance(1, 2) ? "HTTP/1.1 102 Processing\r\n"
                : "HTTP/1.1 103 Early Hints\r\nLink: </a>\r\n");
        if (hk_chance(1, 4)) {
            sb_addf(out, "Content-Length: %d\r\n", (int)hk_below(20000));
        }
        sb_adds(out, "\r\n");
    }
    sb_addf(out, "HTTP/1.1 %03d %s\r\n", r->code, r->reason);
    {
        int at = hk_below(r->nrh + 1);

        for (int i = 0; i <= r->nrh; i++) {
            if (i == at) {
                if (r->rfr == FR_CLEN) {
                    sb_addf(out, "Content-Length:%s%d\r\n",
                            hk_chance(1, 2) ? " " : "", raw.len);
                } else
                if (r->rfr == FR_CHUNKED) {
                    bool clen = hk_chance(1, 8), first = hk_chance(1, 2);

                    if (clen && first) {
                        sb_addf(out, "Content-Length: %d\r\n", r->id);
                    }
                    sb_addf(out, "Transfer-Encoding: chunked\r\n");
                    if (clen && !first) {
                        sb_addf(out, "Content-Length: %d\r\n", r->id);
                    }
                }
                if (r->rcomp) {
                    sb_addf(out, "Content-Encoding: %s\r\n",
                            r->rcomp == CO_ZLIB ? "deflate" : "gzip");
                }
                if (r->rclose) {
                    sb_addf(out, "Connection: close\r\n");
                }
                if (hk_chance(1, 8)) {
                    sb_addf(out, "Connection: %s\r\n",
                            hk_chance(1, 2) ? "keep-alive" : "x-opt");
                }
            }
            if (i < r->nrh) {
                put_hdr(out, &r->rh[i], false);
            }
        }
    }
    sb_adds(out, "\r\n");
    r->rhead = out->len;
    if (r->method == HTTP_METHOD_HEAD || r->code == 304 || r->code == 204) {
        r->rbody.len = 0;
    } else
    if (r->rfr == FR_CLEN || r->rfr == FR_CLOSE) {
        sb_add(out, raw.d, raw.len);
    } else
    if (r->rfr == FR_CHUNKED) {
        add_chunked(out, raw);
    }
    r->rend = out->len;
}

static bool cli_alive(void)
{
    return cli_g.pool.len > 0;
}

static void cli_send(void)
{
    cq_t *r;

    if (!cli_alive()) {
        return;
    }
    if (cli_g.cur < 0) {
        int id = -1;

        for (int i = 0; i < cli_g.nb; i++) {
            if (!cli_g.r[i].attached) {
                id = i;
                break;
            }
        }
        if (id < 0 || cli_g.w->busy || cli_g.w->max_queries == 0) {
            return;
        }
        r = &cli_g.r[id];
        r->attached = true;
        cli_g.cur = id;
        httpc_query_init(&r->q);
        r->q.on_hdrs = &cli_on_hdrs;
        r->q.on_data = &cli_on_data;
        r->q.on_done = &cli_on_done;
        if (r->maxsize) {
            httpc_bufferize(&r->q, r->maxsize);
        }
        if (r->expect) {
            r->q.expect100cont = true;
            r->q.on_100cont = &cli_on_100cont;
        }
        httpc_query_attach(&r->q, cli_g.w);
        httpc_query_start(&r->q, r->method, LSTR("the-host"), LSTR(r->uri));
        for (int i = 0; i < r->nh; i++) {
            char buf[400];

            snprintf(buf, sizeof(buf), "%s: %s", r->h[i].k, r->h[i].v);
            httpc_query_hdrs_adds(&r->q, buf);
        }
        httpc_query_hdrs_done(&r->q, r->fr == FR_CHUNKED || r->hack
                              ? -1 : r->body.len, r->fr == FR_CHUNKED);
        r->headed = true;
        if (r->expect) {
            /* flush the headers */
            el_fd_set_mask(cli_g.w->ev, POLLINOUT);
        }
    }
    r = &cli_g.r[cli_g.cur];
    if (r->expect && !r->continued) {
        return;
    }
    do {
        int l = hk_below(hk_chance(1, 2) ? 400 : 60000);
        outbuf_t *ob = httpc_get_ob(&r->q);

        if (l > r->body.len - r->spos) {
            l = r->body.len - r->spos;
        }
        httpc_query_chunk_start(&r->q, ob);
        ob_add(ob, r->body.d + r->spos, l);
        httpc_query_chunk_done(&r->q, ob);
        r->spos += l;
    } while (r->spos < r->body.len && (r->hack || hk_chance(2, 3)));
    if (r->spos == r->body.len) {
        httpc_query_done(&r->q);
        r->sent = true;
        cli_g.cur = -1;
    }
}

static void run_client(void)
{
    SB(out, 1024);          /* the responses */
    SB(in, 1024);
    pmsg_t m;
    int sv[2];
    int fds, nreq = 0, sent = 0, allowed = 0, idle = 0;
    int cut, sdone;
    bool eof = false, shut = false;
    httpc_cfg_t *cfg;
    unsigned frag = 1 + hk_below(4);
    uint64_t h = 0;

    m_free_all();
    p_clear(&cli_g, 1);
    p_clear(&m, 1);
    sb_init(&m.body);
    cli_g.ok_order = -1;
    cli_g.cur = -1;
    cli_g.nb = 1 + hk_below(hk_chance(1, 3) ? MAX_CQ : 5);
    for (int i = 0; i < cli_g.nb; i++) {
        cli_g.r[i].id = i;
        sb_init(&cli_g.r[i].got);
        gen_query(&cli_g.r[i], &out);
        h = hk_mix(h, cli_g.r[i].rfr * 100 + cli_g.r[i].fr * 10
                   + cli_g.r[i].rcomp);
    }
    h = hk_mix(h, out.len);
    fds = count_fds();
    cfg = httpc_cfg_new();
    cfg->pipeline_depth = 1 + hk_below(8);
    cfg->on_data_threshold = hk_chance(1, 2) ? hk_below(200) : 16 << 10;
    cfg->max_queries = hk_chance(1, 5) ? 1 + hk_below(6) : 1024;
    cfg->header_size_max = 64 << 10;
    httpc_pool_init(&cli_g.pool);
    cli_g.pool.cfg = httpc_cfg_retain(cfg);
    cli_g.pool.max_len = 1;
    make_pair(sv, hk_chance(1, 2));
    cli_g.w = httpc_spawn(sv[1], cfg, &cli_g.pool);

    for (int i = 0; i < cli_g.nb; i++) {
        cq_t *r = &cli_g.r[i];

        hk_trace("%d: %s fr=%d hack=%d body=%d expect=%d max=%u%s code=%d "
                 "rfr=%d rcomp=%d rbody=%d rclose=%d %d-%d-%d", i,
                 meth_g[r->method], r->fr, r->hack, r->body.len, r->expect,
                 r->maxsize, r->too_large ? " too large" : "", r->code,
                 r->rfr, r->rcomp, r->rbody.len, r->rclose, r->rstart,
                 r->rhead, r->rend);
    }
    cut = hk_chance(1, 5) ? (int)hk_below(out.len + 1) : INT_MAX;
    hk_trace("depth=%d threshold=%u queries=%u cut=%d", cfg->pipeline_depth,
             cfg->on_data_threshold, cfg->max_queries, cut);
    sdone = 0;              /* queries whose response may be sent */
    for (;;) {
        int n;

        if (hk_chance(1, 2) || idle > 20) {
            cli_send();
        }
        el_loop_timeout(0);
        /* the raw server reads */
        if (!eof) {
            char buf[BUFSIZ * 4];

            n = read(sv[0], buf, 1 + hk_below(sizeof(buf)));
            if (n > 0) {
                sb_add(&in, buf, n);
                idle = 0;
            } else
            if (n == 0 || errno != EAGAIN) {
                eof = true;
            }
        }
        if (in.len && nreq < cli_g.nb) {
            cq_t *r = &cli_g.r[nreq];
            int res = pmsg_parse(&m, in.data, in.len, false, false, eof,
                                 "cli-request");
            const char *end = memmem(in.data, in.len, "\r\n\r\n", 4);

            if (end && r->expect && !r->seen) {
                const char *v = pmsg_hdr(&m, "Expect");

                HK_CHECK(v && strequal(v, "100-continue"), "cli-expect",
                         "query %d: no Expect header", r->id);
                r->seen = true;
                allowed = r->rstart + strlen("HTTP/1.1 100 Continue\r\n\r\n");
            }
            if (res) {
                char line[500];
                SB(uri, 256);
                int k = 0;

                sb_reset(&uri);
                sb_add_urlencode(&uri, r->uri, strlen(r->uri));
                snprintf(line, sizeof(line), "%s %s HTTP/1.1",
                         meth_g[r->method], uri.data);
                HK_CHECK(strequal(line, m.line), "cli-request",
                         "query %d: `%s` instead of `%s`", r->id, m.line,
                         line);
                HK_CHECK(strequal(pmsg_hdr(&m, "Host") ?: "", "the-host"),
                         "cli-request", "query %d: no Host", r->id);
                for (int i = 0; i < m.nh; i++) {
                    if (k < r->nh && strequal(m.h[i].k, r->h[k].k)
                    &&  strequal(m.h[i].v, r->h[k].v))
                    {
                        k++;
                    }
                }
                HK_CHECK(k == r->nh, "cli-request", "query %d: header %s: "
                         "%s is lost", r->id, r->h[k].k, r->h[k].v);
                check_body("cli-request-body", r->id, m.body.data,
                           m.body.len, r->body);
                sb_skip(&in, m.total);
                allowed = r->rend;
                nreq++;
                sdone++;
                hk_count("requests", 1);
            }
        }
        /* the raw server writes */
        {
            int stop = allowed < cut ? allowed : cut;
            int l = 1 + hk_below(frag == 1 ? 3 : frag == 2 ? 60
                                 : frag == 3 ? 1500 : 100000);

            if (frag == 1 && out.len > 20000) {
                frag = 3;
            }
            /* an answer that the closure ends is the last */
            for (int i = 0; i < cli_g.nb; i++) {
                cq_t *r = &cli_g.r[i];

                if (r->rfr == FR_CLOSE && stop > r->rend) {
                    stop = r->rend;
                }
            }
            if (l > stop - sent) {
                l = stop - sent;
            }
            if (l > 0 && !shut) {
                n = write(sv[0], out.data + sent, l);
                if (n > 0) {
                    sent += n;
                    idle = 0;
                } else
                if (n < 0 && errno != EAGAIN) {
                    shut = true;
                }
            } else
            if (!shut && sent == cut) {
                shutdown(sv[0], SHUT_WR);
                shut = true;
                idle = 0;
            } else
            if (!shut) {
                for (int i = 0; i < cli_g.nb; i++) {
                    cq_t *r = &cli_g.r[i];

                    if (r->rfr == FR_CLOSE && sent == r->rend
                    &&  allowed >= r->rend)
                    {
                        shutdown(sv[0], SHUT_WR);
                        shut = true;
                        idle = 0;
                    }
                }
            }
        }
        if (cli_g.done == cli_g.nb || !cli_alive()) {
            break;
        }
        HK_CHECK(idle++ < 4000, "cli-stalled", "stalled: %d done of %d, %d "
                 "requests read, %d bytes of response sent of %d%s",
                 cli_g.done, cli_g.nb, nreq, sent, allowed,
                 shut ? ", closed" : "");
        if (cli_g.w->max_queries == 0) {
            bool pending = false;

            for (int i = 0; i < cli_g.nb; i++) {
                pending |= cli_g.r[i].attached && !cli_g.r[i].done;
            }
            if (!pending && hk_chance(1, 10)) {
                break;
            }
        }
    }
    /* what happened */
    {
        bool broken = false;

        for (int i = 0; i < cli_g.nb; i++) {
            cq_t *r = &cli_g.r[i];
            bool full = r->rend <= sent;

            if (!r->attached) {
                continue;
            }
            if (r->rfr == FR_CLOSE && r->rhead <= sent && sent < r->rend
            &&  r->done && r->status == HTTPC_STATUS_OK && !broken)
            {
                /* cannot be told from a complete answer; when compressed,
                 * what was received is a prefix of the body */
                body_t b = { r->rbody.d, sent - r->rhead };

                if (r->rcomp) {
                    b.len = r->got.len;
                    HK_CHECK(r->got.len <= r->rbody.len, "cli-body",
                             "query %d: body longer than what was sent", i);
                }
                check_body("cli-body", i, r->got.data, r->got.len, b);
                broken = true;
                continue;
            }
            if (r->done && r->status == HTTPC_STATUS_OK) {
                HK_CHECK(full && !broken && !r->too_large, "cli-ok",
                         "query %d is OK, but its answer was not received",
                         i);
                check_body("cli-body", i, r->got.data, r->got.len, r->rbody);
                hk_count("answers", 1);
            } else
            if (full && !broken && !r->too_large) {
                /* a reset of the connection may lose the end */
                HK_CHECK(!r->done && cli_alive(), "cli-not-ok",
                         "query %d ended with %d, its answer was sent", i,
                         r->status);
            }
            if (r->too_large && r->done) {
                HK_CHECK(broken || !full
                         || r->status == HTTPC_STATUS_TOOLARGE,
                         "cli-too-large", "query %d: %d", i, r->status);
            }
            if (r->rclose || r->rfr == FR_CLOSE || r->too_large || !full) {
                broken = true;
            }
        }
    }
    if (cli_alive()) {
        httpc_t *w = cli_g.w;

        if (hk_chance(1, 2)) {
            close(sv[0]);
            sv[0] = -1;
            for (int i = 0; i < 100 && cli_alive(); i++) {
                el_loop_timeout(0);
            }
            HK_CHECK(!cli_alive(), "cli-not-closed", "the client does not "
                     "see the closure");
        } else {
            obj_release(&w);
        }
    }
    HK_CHECK(cli_g.pool.len == 0, "cli-pool", "%d", cli_g.pool.len);
    for (int i = 0; i < cli_g.nb; i++) {
        cq_t *r = &cli_g.r[i];

        HK_CHECK(!r->attached || r->done, "cli-never-done", "query %d never "
                 "ends", i);
        sb_wipe(&r->got);
    }
    httpc_pool_wipe(&cli_g.pool, true);
    httpc_cfg_delete(&cfg);
    if (sv[0] >= 0) {
        close(sv[0]);
    }
    sb_wipe(&m.body);
    HK_CHECK(count_fds() == fds, "cli-fd-leak", "%d descriptors, %d before",
             count_fds(), fds);
    hk_distinct(h);
}

/* }}} */

static const hk_scenario_t scn[] = {
    { "server", run_server, 12000, 300000 },
    { "client", run_client, 12000, 300000 },
};

int main(int argc, char **argv)
{
    int rc;

    signal(SIGPIPE, SIG_IGN);
    log_set_handler(&no_log);
    MODULE_REQUIRE(http);
    el_blocker_register();
    el_loop_timeout(0);
    rc = hk_main(argc, argv, scn, countof(scn));
    m_free_all();
    MODULE_RELEASE(http);
    return rc;
}
