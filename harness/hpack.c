/* C14: HPACK. The reference is a plain decoder written from RFC 7541. */
#include <lib-common/net/hpack.h>
#include "hk.h"
#include "rfc7541.h"

/* {{{ reference decoder */

typedef struct ref_str_t {
    uint8_t *s;
    unsigned len;
} ref_str_t;

typedef struct ref_hdr_t {
    ref_str_t key, val;
} ref_hdr_t;

#define REF_MAX 4096
typedef struct ref_t {
    ref_hdr_t tab[REF_MAX];     /* tab[0]: the most recent one */
    int nb;
    uint32_t size, limit, max;
} ref_t;

static ref_str_t rs_new(const void *p, unsigned len)
{
    ref_str_t r = { .s = (malloc)(len + 1), .len = len };

    memcpy(r.s, p, len);
    return r;
}

static void ref_hdr_wipe(ref_hdr_t *h)
{
    (free)(h->key.s);
    (free)(h->val.s);
    h->key.s = h->val.s = NULL;
}

static uint32_t ref_size(const ref_hdr_t *h)
{
    return 32 + h->key.len + h->val.len;
}

static void ref_evict(ref_t *r, uint32_t room)
{
    while (r->nb && r->size + room > r->limit) {
        r->nb--;
        r->size -= ref_size(&r->tab[r->nb]);
        ref_hdr_wipe(&r->tab[r->nb]);
    }
}

static void ref_add(ref_t *r, const ref_hdr_t *h)
{
    uint32_t sz = ref_size(h);

    ref_evict(r, sz);
    if (sz > r->limit) {
        return;
    }
    if (r->nb == REF_MAX) {
        hk_error("reference table too small");
    }
    memmove(r->tab + 1, r->tab, sizeof(r->tab[0]) * r->nb);
    r->tab[0].key = rs_new(h->key.s, h->key.len);
    r->tab[0].val = rs_new(h->val.s, h->val.len);
    r->nb++;
    r->size += sz;
}

static void ref_wipe(ref_t *r)
{
    for (int i = 0; i < r->nb; i++) {
        ref_hdr_wipe(&r->tab[i]);
    }
    r->nb = 0;
    r->size = 0;
}

typedef struct in_t {
    const uint8_t *b, *e;
} in_t;

/* -1: invalid, -2: beyond the limits of the implementation */
static int ref_int(in_t *in, int bits, uint64_t *out)
{
    uint32_t m = (1u << bits) - 1;
    uint64_t v;
    int n = 0;

    if (in->b == in->e) {
        return -1;
    }
    v = *in->b++ & m;
    if (v < m) {
        *out = v;
        return 0;
    }
    for (int shift = 0;; shift += 7) {
        uint8_t b;

        if (in->b == in->e) {
            return -1;
        }
        if (++n > 7) {
            return -2;
        }
        b = *in->b++;
        v += (uint64_t)(b & 0x7f) << shift;
        if (!(b & 0x80)) {
            break;
        }
    }
    *out = v;
    return v > UINT32_MAX ? -2 : 0;
}

static int16_t tree_g[600][2];      /* > 0: node, <= 0: -symbol, 999: none */
static int tree_nb_g;

static void tree_init(void)
{
    tree_nb_g = 1;
    tree_g[0][0] = tree_g[0][1] = 999;
    for (int c = 0; c < 257; c++) {
        int n = 0;

        for (int i = rfc_huff[c].len - 1; i >= 0; i--) {
            int bit = (rfc_huff[c].code >> i) & 1;

            if (!i) {
                tree_g[n][bit] = -c;
                break;
            }
            if (tree_g[n][bit] == 999) {
                tree_g[n][bit] = tree_nb_g;
                tree_g[tree_nb_g][0] = tree_g[tree_nb_g][1] = 999;
                tree_nb_g++;
            }
            n = tree_g[n][bit];
        }
    }
}

static int ref_huff(const uint8_t *p, unsigned len, ref_str_t *out)
{
    int n = 0;          /* bits since the last symbol */
    bool ones = true;
    int node = 0;
    unsigned o = 0;
    uint8_t *res;

    if (!tree_nb_g) {
        tree_init();
    }
    res = (malloc)(2 * len + 2);
    for (unsigned i = 0; i < len * 8; i++) {
        int bit = (p[i / 8] >> (7 - i % 8)) & 1;
        int next = tree_g[node][bit];

        n++;
        ones &= bit;
        if (next > 0) {
            node = next;
            continue;
        }
        if (next == -256) {
            (free)(res);
            return -1;
        }
        res[o++] = -next;
        n = node = 0;
        ones = true;
    }
    /* padding: at most 7 bits, a prefix of EOS */
    if (n > 7 || !ones) {
        (free)(res);
        return -1;
    }
    out->s = res;
    out->len = o;
    return 0;
}

static int ref_str(in_t *in, ref_str_t *out, bool *huff)
{
    uint64_t len;
    bool h = in->b < in->e && (*in->b & 0x80);
    int rc = ref_int(in, 7, &len);

    out->s = NULL;
    *huff = h;
    if (rc) {
        return rc;
    }
    if (len > (uint64_t)(in->e - in->b)) {
        return -1;
    }
    if (h) {
        rc = ref_huff(in->b, len, out);
    } else {
        *out = rs_new(in->b, len);
    }
    in->b += len;
    return rc;
}

/* Decode one header. */
static int ref_hdr(ref_t *r, in_t *in, ref_hdr_t *h, bool *added)
{
    uint8_t b = *in->b;
    bool huff;
    uint64_t idx;
    int bits = b & 0x80 ? 7 : b & 0x40 ? 6 : b & 0x20 ? 5 : 4;
    int rc;

    p_clear(h, 1);
    *added = bits == 6;
    if (bits == 5) {
        return -1;
    }
    if ((rc = ref_int(in, bits, &idx))) {
        return rc;
    }
    if (idx == 0 && bits == 7) {
        return -1;
    }
    if (idx == 0) {
        if ((rc = ref_str(in, &h->key, &huff))) {
            return rc;
        }
    } else
    if (idx < 62) {
        h->key = rs_new(rfc_static[idx].key, strlen(rfc_static[idx].key));
        if (bits == 7) {
            h->val = rs_new(rfc_static[idx].val, strlen(rfc_static[idx].val));
        }
    } else {
        ref_hdr_t *e;

        if (idx - 62 >= (uint64_t)r->nb) {
            return -1;
        }
        e = &r->tab[idx - 62];
        h->key = rs_new(e->key.s, e->key.len);
        if (bits == 7) {
            h->val = rs_new(e->val.s, e->val.len);
        }
    }
    if (bits != 7 && (rc = ref_str(in, &h->val, &huff))) {
        return rc;
    }
    if (*added) {
        ref_add(r, h);
    }
    return 0;
}

/* }}} */
/* {{{ decoder under test */

static void check_tables(ref_t *r, hpack_dec_dtbl_t *dec)
{
    uint32_t size = 0;

    HK_CHECK(hpack_dec_dtbl_get_count(dec) == r->nb, "dec-count",
             "%d entries instead of %d", hpack_dec_dtbl_get_count(dec),
             r->nb);
    HK_CHECK(dec->tbl_size == r->size, "dec-size", "%u instead of %u",
             dec->tbl_size, r->size);
    HK_CHECK(dec->tbl_size <= dec->tbl_size_limit
             && dec->tbl_size_limit <= dec->tbl_size_max, "dec-limit",
             "%u %u %u", dec->tbl_size, dec->tbl_size_limit,
             dec->tbl_size_max);
    for (int i = 0; i < r->nb; i++) {
        int pos = dec->entries.first + i;
        hpack_dec_dtbl_entry_t *e;

        if (pos >= dec->entries.size) {
            pos -= dec->entries.size;
        }
        e = &dec->entries.tab[pos];
        HK_CHECK(e->key.len == (int)r->tab[i].key.len
                 && !memcmp(e->key.s, r->tab[i].key.s, e->key.len),
                 "dec-entry", "key of entry %d differs", i);
        HK_CHECK(e->val.len == (int)r->tab[i].val.len
                 && !memcmp(e->val.s, r->tab[i].val.s, e->val.len),
                 "dec-entry", "value of entry %d differs", i);
        size += 32 + e->key.len + e->val.len;
    }
    HK_CHECK(size == dec->tbl_size, "dec-size", "sum %u size %u", size,
             dec->tbl_size);
}

/* Decode a block with both; returns the number of headers or -1. */
static int decode_block(ref_t *r, hpack_dec_dtbl_t *dec, const void *data,
                        size_t len, bool valid, ref_hdr_t *out, int max)
{
    uint8_t *blk = hk_exact(data, len);
    pstream_t ps = ps_init(blk, len);
    in_t in = { blk, blk + len };
    int nb = 0;

    for (;;) {
        int rc, want;
        uint64_t sz;

        want = in.b < in.e && (*in.b & 0xe0) == 0x20;
        if (want) {
            int irc = ref_int(&in, 5, &sz);

            if (irc < 0 || sz > r->max) {
                want = -1;
            } else {
                r->limit = sz;
                ref_evict(r, 0);
            }
        }
        rc = hpack_decoder_read_dts_update(dec, &ps);
        HK_CHECK(rc == want, "dts", "%d instead of %d", rc, want);
        if (rc < 0) {
            goto bad;
        }
        if (rc == 0) {
            break;
        }
        HK_CHECK(dec->tbl_size_limit == r->limit, "dts-limit", "");
        check_tables(r, dec);
    }
    while (!ps_done(&ps)) {
        hpack_xhdr_t xhdr;
        ref_hdr_t h;
        bool added;
        int want, est, rc = -1, keylen = -1;
        byte *o;

        want = ref_hdr(r, &in, &h, &added);
        est = hpack_decoder_extract_hdr(dec, &ps, &xhdr);
        if (est < 0) {
            HK_CHECK(want < 0, "refused", "header refused");
            ref_hdr_wipe(&h);
            goto bad;
        }
        HK_CHECK(est <= (int)(2 * len + 10000 + 4096), "estimate", "%d", est);
        o = (malloc)(est + 4);
        rc = hpack_decoder_write_hdr(dec, &xhdr, o, &keylen);
        if (rc < 0) {
            HK_CHECK(want < 0, "refused", "header refused");
            (free)(o);
            ref_hdr_wipe(&h);
            goto bad;
        }
        HK_CHECK(want == 0, "accepted", "invalid header accepted (%d)", want);
        HK_CHECK(rc <= est + 4, "estimate", "%d bytes for an estimate of %d",
                 rc, est);
        HK_CHECK(keylen == (int)h.key.len, "key", "length %d instead of %u",
                 keylen, h.key.len);
        HK_CHECK(rc == (int)(h.key.len + h.val.len + 4), "length",
                 "%d instead of %u", rc, h.key.len + h.val.len + 4);
        HK_CHECK(!memcmp(o, h.key.s, keylen), "key", "differs");
        HK_CHECK(o[keylen] == ':' && o[keylen + 1] == ' '
                 && o[rc - 2] == '\r' && o[rc - 1] == '\n', "line", "");
        HK_CHECK(!memcmp(o + keylen + 2, h.val.s, h.val.len), "value",
                 "differs");
        (free)(o);
        HK_CHECK(ps.b == in.b, "consumed", "%zd bytes",
                 (ssize_t)(ps.b - in.b));
        check_tables(r, dec);
        if (nb < max && out) {
            out[nb] = h;
        } else {
            ref_hdr_wipe(&h);
        }
        nb++;
    }
    HK_CHECK(in.b == in.e, "consumed", "");
    (free)(blk);
    return nb;

  bad:
    HK_CHECK(!valid, "refused", "block of the encoder refused");
    (free)(blk);
    for (int i = 0; i < MIN(nb, max) && out; i++) {
        ref_hdr_wipe(&out[i]);
    }
    return -1;
}

/* }}} */
/* {{{ round trip */

#define NKEYS 40
#define NVALS 30
static lstr_t keys_g[NKEYS], vals_g[NVALS];

static lstr_t t_rand_str(bool key)
{
    unsigned len = hk_chance(1, 6) ? hk_below(200)
                 : hk_chance(1, 30) ? hk_below(5000) : hk_below(20);
    char *s;

    if (key && !len) {
        len = 1;
    }
    s = t_new_raw(char, len + 1);
    for (unsigned i = 0; i < len; i++) {
        static char const alpha[] = "abcdefghijklmnopqrstuvwxyz0123456789-_";

        switch (hk_below(key ? 6 : 8)) {
          case 7:
            s[i] = hk_rand();
            break;
          case 6:
            s[i] = 0x20 + hk_below(95);
            break;
          default:
            s[i] = alpha[hk_below(sizeof(alpha) - 1)];
            break;
        }
    }
    s[len] = '\0';
    return LSTR_INIT_V(s, len);
}

static void t_mk_dict(void)
{
    for (int i = 0; i < NKEYS; i++) {
        bool dup;

        do {
            dup = false;
            if (i < 15) {
                keys_g[i] = t_lstr_dup(LSTR(rfc_static[1 + hk_below(61)].key));
                if (hk_chance(1, 3)) {
                    keys_g[i].v[hk_below(keys_g[i].len)] &= ~0x20;
                }
            } else {
                keys_g[i] = t_rand_str(true);
            }
            for (int j = 0; j < i; j++) {
                dup |= lstr_ascii_iequal(keys_g[i], keys_g[j]);
            }
        } while (dup && i >= 15);
    }
    for (int i = 0; i < NVALS; i++) {
        vals_g[i] = i < 8 ? LSTR(rfc_static[2 + hk_below(15)].val)
                  : t_rand_str(false);
    }
}

/* the encoder identifies keys and values by number: same number, same text */
static int key_id(int k)
{
    for (int i = 0; i < k; i++) {
        if (lstr_ascii_iequal(keys_g[i], keys_g[k])) {
            return i + 1;
        }
    }
    return k + 1;
}

static bool ieq(lstr_t a, ref_str_t b)
{
    return lstr_ascii_iequal(a, LSTR_INIT_V((const char *)b.s, b.len));
}

static void check_enc(ref_t *r, hpack_enc_dtbl_t *enc)
{
    HK_CHECK(hpack_enc_dtbl_get_count(enc) == r->nb, "enc-count",
             "encoder has %d entries, decoder %d",
             hpack_enc_dtbl_get_count(enc), r->nb);
    HK_CHECK(enc->tbl_size == r->size, "enc-size", "%u instead of %u",
             enc->tbl_size, r->size);
    HK_CHECK(enc->tbl_size <= enc->tbl_size_limit, "enc-limit", "");
}

static void sc_roundtrip(void)
{
    static ref_t ref;
    hpack_enc_dtbl_t *enc = hpack_enc_dtbl_new();
    hpack_dec_dtbl_t *dec = hpack_dec_dtbl_new();
    unsigned max = hk_chance(1, 3) ? hk_below(300) : hk_chance(1, 2) ? 4096
                 : hk_below(20000);
    unsigned blocks = 1 + hk_below(30);
    bool many = hk_chance(1, 3);
    uint64_t hash = 0;

    t_scope;

    t_mk_dict();
    p_clear(&ref, 1);
    ref.limit = ref.max = max;
    hpack_enc_dtbl_init_settings(enc, max);
    hpack_dec_dtbl_init_settings(dec, max);
    while (blocks--) {
        unsigned nb = hk_below(many ? 60 : 12);
        sb_t sb;
        struct { lstr_t key, val; } sent[64];
        ref_hdr_t got[64];
        int n;

        sb_init(&sb);
        for (unsigned i = hk_chance(1, 4) ? 1 + hk_below(3) : 0; i; i--) {
            byte *o = (malloc)(HPACK_BUFLEN_INT);
            uint32_t sz = hk_chance(1, 3) ? max : max ? hk_below(max) : 0;
            int len = hpack_encoder_write_dts_update(enc, sz, o);

            HK_CHECK(len > 0 && len <= HPACK_BUFLEN_INT, "dts-len", "%d",
                     len);
            sb_add(&sb, o, len);
            (free)(o);
        }
        for (unsigned i = 0; i < nb; i++) {
            int k = hk_below(NKEYS), v = hk_below(NVALS);
            lstr_t key = keys_g[k], val = vals_g[v];
            unsigned flags = 0;
            int kid = 0, vid = 0, len, buflen;
            byte *o;

            if (hk_chance(1, 8)) {
                key = t_rand_str(true);
                k = -1;
            }
            if (hk_chance(1, 4)) {
                val = t_rand_str(false);
                v = -1;
            }
            if (k >= 0 && hk_chance(2, 3)) {
                kid = key_id(k);
                if (v >= 0 && hk_chance(2, 3)) {
                    vid = v + 1;
                }
            }
            for (int f = 0; f <= 10; f++) {
                if (hk_chance(1, 8)) {
                    flags |= 1u << f;
                }
            }
            buflen = hpack_buflen_to_write_hdr(key, val, flags);
            o = (malloc)(buflen);
            len = hpack_encoder_write_hdr(enc, key, val, kid, vid, flags, o);
            HK_CHECK(len > 0 && len <= buflen, "enc-len", "%d/%d", len,
                     buflen);
            sb_add(&sb, o, len);
            (free)(o);
            sent[i].key = key;
            sent[i].val = val;
            if (flags & HPACK_FLG_NVRADD_DTBL && !(flags & HPACK_FLG_ADD_DTBL)
            &&  !(sb.data[sb.len - len] & 0x80))
            {
                HK_CHECK((sb.data[sb.len - len] & 0xf0) == 0x10, "never",
                         "sensitive header not marked as such");
            }
        }
        n = decode_block(&ref, dec, sb.data, sb.len, true, got, 64);
        HK_CHECK(n == (int)nb, "count", "%d headers instead of %u", n, nb);
        for (unsigned i = 0; i < nb; i++) {
            HK_CHECK(ieq(sent[i].key, got[i].key), "roundtrip-key",
                     "header %u: key %*pM comes back as %.*s", i,
                     LSTR_FMT_ARG(sent[i].key), (int)got[i].key.len,
                     got[i].key.s);
            HK_CHECK(sent[i].val.len == (int)got[i].val.len
                     && !memcmp(sent[i].val.s, got[i].val.s, got[i].val.len),
                     "roundtrip-value", "header %u: value differs", i);
            ref_hdr_wipe(&got[i]);
        }
        check_enc(&ref, enc);
        hash = hk_hash(sb.data, sb.len, hash);
        sb_wipe(&sb);
    }
    hk_distinct(hash);
    ref_wipe(&ref);
    hpack_enc_dtbl_delete(&enc);
    hpack_dec_dtbl_delete(&dec);
}

/* }}} */
/* {{{ decoder alone, any representation */

static bool huge_g;     /* integers beyond 32 bits */

static void sb_int(sb_t *sb, uint64_t v, int bits, uint8_t mask)
{
    uint32_t m = (1u << bits) - 1;

    if (huge_g && hk_chance(1, 30)) {
        uint64_t hi = hk_chance(1, 2) ? 1 : 1 + hk_below(1 << 16);

        v += hi << 32;
    }
    if (v < m) {
        sb_addc(sb, mask | v);
        return;
    }
    sb_addc(sb, mask | m);
    v -= m;
    for (; v >= 128; v >>= 7) {
        sb_addc(sb, 0x80 | (v & 0x7f));
    }
    if (hk_chance(1, 20)) {
        /* useless zeroes */
        sb_addc(sb, 0x80 | v);
        v = 0;
        for (int n = hk_below(3); n; n--) {
            sb_addc(sb, 0x80);
        }
    }
    sb_addc(sb, v);
}

static void sb_str(sb_t *sb, lstr_t s)
{
    if (hk_chance(1, 2)) {
        uint64_t acc = 0;
        int n = 0;
        SB_1k(z);

        for (int i = 0; i < s.len; i++) {
            uint8_t c = s.s[i];

            acc = acc << rfc_huff[c].len | rfc_huff[c].code;
            n += rfc_huff[c].len;
            while (n >= 8) {
                sb_addc(&z, acc >> (n - 8));
                n -= 8;
            }
        }
        if (n) {
            sb_addc(&z, acc << (8 - n) | ((1 << (8 - n)) - 1));
        }
        if (hk_chance(1, 40)) {
            sb_addc(&z, 0xff);
        }
        sb_int(sb, z.len, 7, 0x80);
        sb_add(sb, z.data, z.len);
    } else {
        sb_int(sb, s.len, 7, 0);
        sb_add_lstr(sb, s);
    }
}

static void sc_decoder(void)
{
    static ref_t ref;
    hpack_dec_dtbl_t *dec = hpack_dec_dtbl_new();
    unsigned max = hk_chance(1, 3) ? hk_below(300) : hk_chance(1, 2) ? 4096
                 : hk_below(20000);
    unsigned blocks = 1 + hk_below(20);
    bool hostile = hk_chance(1, 2);
    uint64_t hash = 0;

    t_scope;

    t_mk_dict();
    huge_g = hostile && hk_chance(1, 2);
    p_clear(&ref, 1);
    ref.limit = ref.max = max;
    hpack_dec_dtbl_init_settings(dec, max);
    while (blocks--) {
        sb_t sb;
        bool valid = true;
        int n;

        sb_init(&sb);
        for (unsigned i = hk_chance(1, 4) ? 1 + hk_below(3) : 0; i; i--) {
            uint32_t sz = hk_below(max + 1);

            if (hk_chance(1, 40)) {
                sz = max + 1 + hk_below(100);
            }
            sb_int(&sb, sz, 5, 0x20);
        }
        for (unsigned i = hk_below(25); i; i--) {
            static const struct { int bits; uint8_t mask; } reps[] = {
                { 7, 0x80 }, { 6, 0x40 }, { 6, 0x40 }, { 4, 0x10 }, { 4, 0 },
            };
            int k = hk_below(countof(reps));
            uint32_t idx;

            switch (hk_below(4)) {
              case 0:
                idx = hk_below(62);
                break;
              case 1:
                idx = reps[k].bits == 7 ? 61 : 0;
                break;
              default:
                idx = 62 + hk_below(ref.nb + 3);
                break;
            }
            sb_int(&sb, idx, reps[k].bits, reps[k].mask);
            if (reps[k].bits != 7) {
                if (!idx) {
                    sb_str(&sb, hk_chance(1, 2) ? keys_g[hk_below(NKEYS)]
                           : t_rand_str(true));
                }
                sb_str(&sb, hk_chance(1, 2) ? vals_g[hk_below(NVALS)]
                       : t_rand_str(false));
            }
        }
        valid = false;
        if (hostile && sb.len) {
            for (unsigned i = hk_below(3); i; i--) {
                switch (hk_below(3)) {
                  case 0:
                    sb.data[hk_below(sb.len)] ^= 1 << hk_below(8);
                    break;
                  case 1:
                    sb.data[hk_below(sb.len)] = hk_rand();
                    break;
                  default:
                    sb_clip(&sb, hk_below(sb.len + 1));
                    break;
                }
                if (!sb.len) {
                    break;
                }
            }
        }
        hash = hk_hash(sb.data, sb.len, hash);
        n = decode_block(&ref, dec, sb.data, sb.len, valid, NULL, 0);
        hk_count(n < 0 ? "blocks refused" : "blocks accepted", 1);
        sb_wipe(&sb);
        if (n < 0) {
            /* a decoding error ends the connection */
            break;
        }
    }
    hk_distinct(hash);
    ref_wipe(&ref);
    hpack_dec_dtbl_delete(&dec);
}

/* }}} */

int main(int argc, char **argv)
{
    static hk_scenario_t const scs[] = {
        { "roundtrip", sc_roundtrip, 30000, 600000 },
        { "decoder", sc_decoder, 40000, 800000 },
    };

    return hk_main(argc, argv, scs, countof(scs));
}
