/* C16 (BER) and C17 (aligned PER): random descriptions built at run time,
 * random values, a reference BER encoder, round trips, hostile inputs. */
#include <lib-common/asn1.h>
#include <lib-common/asn1-per.h>
#include <lib-common/asn1/per-priv.h>
#include <lib-common/log.h>
#include "hk.h"

#define T(x)  ASN1_OBJ_TYPE_##x
#define M(x)  ASN1_OBJ_MODE_##x

/* {{{ random descriptions */

typedef struct xd_t {
    asn1_desc_t *d;
    bool used[256];
    bool has_ext, is_choice;
} xd_t;

#define XD_MAX 200
static struct {
    bool per;
    xd_t *xds[XD_MAX];
    int nb;
    asn1_enum_info_t *enums[1000];
    int nb_enums;
    uint64_t hash;
} D;

static xd_t *xd_find(const asn1_desc_t *d)
{
    for (int i = 0; i < D.nb; i++) {
        if (D.xds[i]->d == d) {
            return D.xds[i];
        }
    }
    hk_error("unknown description");
}

static xd_t *xd_new(bool choice)
{
    xd_t *x = (calloc)(1, sizeof(xd_t));

    if (D.nb >= XD_MAX) {
        hk_error("too many descriptions");
    }
    x->is_choice = choice;
    if (choice) {
        asn1_choice_desc_t *c = asn1_choice_desc_new();

        x->d = &c->desc;
        x->d->type = ASN1_CSTD_TYPE_CHOICE;
    } else {
        x->d = asn1_desc_new();
    }
    D.xds[D.nb++] = x;
    return x;
}

static void descs_wipe(void)
{
    for (int i = 0; i < D.nb; i++) {
        if (D.xds[i]->is_choice) {
            asn1_choice_desc_t *c;

            c = container_of(D.xds[i]->d, asn1_choice_desc_t, desc);
            asn1_choice_desc_delete(&c);
        } else {
            asn1_desc_delete(&D.xds[i]->d);
        }
        (free)(D.xds[i]);
    }
    for (int i = 0; i < D.nb_enums; i++) {
        asn1_enum_info_delete(&D.enums[i]);
    }
    D.nb = D.nb_enums = 0;
}

/* opaque type */
typedef struct opq_t {
    uint32_t n;
} opq_t;

static int32_t opq_size(const void *data)
{
    return ((const opq_t *)data)->n % 300;
}

static uint8_t *opq_pack(uint8_t *dst, const void *data)
{
    int32_t sz = opq_size(data);

    memset(dst, sz & 0xff, sz);
    return dst + sz;
}

static int opq_unpack(pstream_t *ps, mem_pool_t *mp, void *out)
{
    size_t len = ps_len(ps);

    THROW_ERR_IF(len >= 300);
    for (size_t i = 0; i < len; i++) {
        THROW_ERR_IF(ps->b[i] != (len & 0xff));
    }
    __ps_skip(ps, len);
    ((opq_t *)out)->n = len;
    return 0;
}

static int type_size(int type)
{
    switch (type) {
      case T(bool): return sizeof(bool);
      case T(int8_t): case T(uint8_t): return 1;
      case T(int16_t): case T(uint16_t): return 2;
      case T(int32_t): case T(uint32_t): case T(enum): return 4;
      case T(int64_t): case T(uint64_t): return 8;
      case T(OPT_NULL): return 1;
      case T(lstr_t): case T(OPEN_TYPE): return sizeof(lstr_t);
      case T(asn1_bit_string_t): return sizeof(asn1_bit_string_t);
      case T(asn1_ext_t): return sizeof(asn1_ext_t);
      case T(OPAQUE): return sizeof(opq_t);
      default: return 0;
    }
}

static int opt_size(int type)
{
    switch (type) {
      case T(bool): return sizeof(opt_bool_t);
      case T(int8_t): case T(uint8_t): return sizeof(opt_i8_t);
      case T(int16_t): case T(uint16_t): return sizeof(opt_i16_t);
      case T(int32_t): case T(uint32_t): case T(enum):
        return sizeof(opt_i32_t);
      case T(int64_t): case T(uint64_t): return sizeof(opt_i64_t);
      default: return type_size(type);
    }
}

static bool is_int(int type)
{
    return type >= T(int8_t) && type <= T(uint64_t);
}

static bool is_signed(int type)
{
    return asn1_field_type_is_signed_int(type);
}

static int int_bits(int type)
{
    return type_size(type) * 8;
}

/* value of the type, sign or zero extended to 64 bits */
static int64_t int_trunc(int type, uint64_t v)
{
    int sh = 64 - int_bits(type);

    return is_signed(type) ? (int64_t)(v << sh) >> sh
                           : (int64_t)((v << sh) >> sh);
}

static bool int_le(int type, int64_t a, int64_t b)
{
    return is_signed(type) ? a <= b : (uint64_t)a <= (uint64_t)b;
}

static asn1_enum_info_t *gen_enum(void)
{
    asn1_enum_info_t *e = asn1_enum_info_new();
    int nb = hk_chance(1, 20) ? hk_range(200, 300) : hk_range(1, 20);
    int32_t v = hk_chance(1, 2) ? 0 : (int32_t)hk_range(-300, 1000);

    for (int i = 0; i < nb; i++) {
        asn1_enum_append(e, v);
        v += hk_range(1, hk_chance(1, 5) ? 1000000 : 3);
    }
    if (hk_chance(1, 2)) {
        e->extended = true;
        nb = hk_chance(1, 8) ? hk_range(60, 300) : hk_below(6);
        v += 1 + hk_below(10);
        for (int i = 0; i < nb; i++) {
            asn1_enum_append(e, v);
            v += hk_range(1, 3);
        }
        if (hk_chance(1, 4)) {
            asn1_enum_info_reg_ext_defval(e, v);
        }
    }
    asn1_enum_info_done(e);
    D.enums[D.nb_enums++] = e;
    return e;
}

static void gen_cnt(asn1_cnt_info_t *c, bool may_be_long)
{
    size_t a, b;

    if (hk_chance(1, 3)) {
        return;
    }
    a = hk_chance(1, 2) ? hk_below(4) : hk_below(300);
    if (may_be_long && hk_chance(1, 12)) {
        a = hk_chance(1, 2) ? hk_range(16000, 17000) : hk_range(60000, 75000);
    }
    switch (hk_below(6)) {
      case 0: b = a; break;
      case 1: b = a + hk_below(4); break;
      case 2: b = a + hk_below(300); break;
      case 3: b = a + 65534 + hk_below(4); break;
      case 4: b = SIZE_MAX; break;
      default: b = a + (hk_chance(1, 2) ? 255 : (1ull << 32) + hk_below(3));
               break;
    }
    c->min = a;
    c->max = b;
    if (hk_chance(1, 3)) {
        c->extended = true;
        if (hk_chance(1, 2)) {
            c->ext_min = hk_below(a + 1);
            c->ext_max = b > SIZE_MAX - 1000 ? b : b + hk_below(500);
        }
    }
}

static void gen_int_info(asn1_field_t *f)
{
    asn1_int_info_t *i = &f->int_info;
    int64_t a = int_trunc(f->type, hk_u64_edgy());
    int64_t b = int_trunc(f->type, hk_u64_edgy());

    if (hk_chance(1, 3)) {
        /* range of an interesting width */
        uint64_t w = (1ull << hk_below(34)) - hk_below(2);

        b = int_trunc(f->type, a + (hk_chance(1, 2) ? w : hk_below(300)));
    }
    if (!int_le(f->type, a, b)) {
        SWAP(int64_t, a, b);
    }
    if (hk_chance(2, 3)) {
        asn1_int_info_set_min(i, a);
    }
    if (hk_chance(2, 3)) {
        asn1_int_info_set_max(i, b);
    }
    asn1_int_info_update(i, is_signed(f->type));
    if (hk_chance(1, 3)) {
        i->extended = true;
        if (hk_chance(1, 3)) {
            a = int_trunc(f->type, hk_u64_edgy());
            b = int_trunc(f->type, hk_u64_edgy());
            if (!int_le(f->type, a, b)) {
                SWAP(int64_t, a, b);
            }
            i->has_ext_min = true;
            i->ext_min.i = a;
            i->has_ext_max = true;
            i->ext_max.i = b;
        }
    }
}

static xd_t *gen_desc(int depth, int kind, bool *used);
enum { K_SEQ, K_CHOICE, K_SEQOF };

static uint8_t gen_tag(bool *used)
{
    for (;;) {
        uint8_t t = hk_chance(1, 2) ? 0x80 + hk_below(31) : hk_below(256);

        if (t && (t & 0x1f) != 0x1f && !used[t]) {
            used[t] = true;
            return t;
        }
    }
}

static const int scalars_g[] = {
    T(bool), T(int8_t), T(uint8_t), T(int16_t), T(uint16_t), T(int32_t),
    T(uint32_t), T(int64_t), T(uint64_t), T(enum),
};

/* adds a field; returns false when the description cannot go on */
static bool gen_field(xd_t *x, int depth, int kind, bool simple, int *off)
{
    asn1_field_t f = { .name = "f", .oc_t_name = "t", .tag_len = 1 };
    asn1_field_t *r;
    asn1_desc_t *sub = NULL;
    bool go_on = true;
    int storage, align;

    f.mode = kind == K_SEQOF ? M(SEQ_OF) : M(MANDATORY);
    switch (simple ? hk_below(6) : depth > 0 ? hk_below(14) : hk_below(9)) {
      case 0 ... 3:
        f.type = scalars_g[hk_below(countof(scalars_g))];
        break;
      case 4 ... 5:
        f.type = T(lstr_t);
        break;
      case 6:
        f.type = T(asn1_bit_string_t);
        break;
      case 7:
        if (kind == K_SEQOF) {
            f.type = T(uint16_t);
        } else {
            f.type = kind == K_SEQ && hk_chance(1, 2) ? T(OPT_NULL) : T(NULL);
        }
        break;
      case 8:
        if (D.per) {
            f.type = T(bool);
        } else if (kind == K_SEQ && hk_chance(1, 2)) {
            if (hk_chance(1, 2)) {
                f.type = T(SKIP);
                f.mode = M(OPTIONAL);
            } else {
                f.type = T(OPEN_TYPE);
            }
        } else {
            f.type = T(OPAQUE);
        }
        break;
      case 9 ... 10:
        f.type = T(SEQUENCE);
        sub = gen_desc(depth - 1, K_SEQ, NULL)->d;
        break;
      case 11:
        f.type = T(SEQUENCE);
        sub = gen_desc(depth - 1, K_SEQOF, NULL)->d;
        break;
      case 12:
        f.type = T(CHOICE);
        sub = gen_desc(depth - 1, K_CHOICE, NULL)->d;
        break;
      case 13:
        if (!D.per && hk_chance(1, 4)) {
            /* one description that an external value can always use */
            gen_desc(0, K_CHOICE, NULL);
            f.type = T(asn1_ext_t);
            x->has_ext = true;
        } else {
            f.type = T(UNTAGGED_CHOICE);
            sub = gen_desc(depth - 1, K_CHOICE, x->used)->d;
        }
        break;
    }
    f.size = sub ? sub->size : type_size(f.type);
    if (sub) {
        f.u.comp = sub;
        f.pointed = hk_chance(1, 3);
    } else if (f.type == T(OPAQUE)) {
        f.u.opaque.pack_size = &opq_size;
        f.u.opaque.pack = &opq_pack;
        f.u.opaque.unpack = &opq_unpack;
        f.pointed = hk_chance(1, 3);
    }
    if (f.type == T(OPT_NULL)) {
        f.mode = M(OPTIONAL);
    } else if (kind == K_SEQ && f.type != T(NULL)
           &&  (x->d->is_extended || hk_chance(1, 3)))
    {
        f.mode = M(OPTIONAL);
        if (sub || f.type == T(OPAQUE)) {
            f.pointed = true;
        }
    }
    if (kind == K_SEQ && x->d->is_extended && f.mode != M(OPTIONAL)) {
        return true;
    }
    if (f.type == T(OPEN_TYPE) && f.mode == M(OPTIONAL)) {
        /* any tag matches: nothing can follow */
        go_on = false;
    }
    if (f.type != T(UNTAGGED_CHOICE) && f.type != T(OPEN_TYPE)) {
        f.tag = D.per ? 0x80 : gen_tag(x->used);
    }
    if (D.per && kind == K_CHOICE && f.type != T(UNTAGGED_CHOICE)) {
        f.tag = x->d->fields.len;
    }

    /* storage */
    if (kind == K_SEQOF) {
        storage = sizeof(asn1_void_vector_t);
        align = 8;
    } else if (f.pointed) {
        storage = align = 8;
    } else if (f.type == T(NULL) || f.type == T(SKIP)) {
        storage = 0;
        align = 1;
    } else if (f.mode == M(OPTIONAL)) {
        storage = opt_size(f.type);
        align = MIN(storage, 8);
    } else {
        storage = f.size;
        align = sub ? 8 : MIN(storage, 8);
    }
    if (align > 1 && (align & (align - 1))) {
        align = 8;
    }
    *off = storage ? ROUND_UP(*off, align) : *off;
    f.offset = storage ? *off : 0;
    *off += storage;

    if (kind == K_SEQOF) {
        x->d->is_seq_of = true;
    }
    asn1_reg_field(x->d, &f);
    r = &x->d->fields.tab[x->d->fields.len - 1];
    D.hash = hk_mix(D.hash, r->type * 8 + r->mode * 2 + r->pointed);

    if (r->type == T(enum)) {
        r->enum_info = gen_enum();
    }
    if (D.per) {
        if (is_int(r->type) && hk_chance(2, 3)) {
            gen_int_info(r);
        }
        if (r->type == T(lstr_t) || r->type == T(asn1_bit_string_t)) {
            gen_cnt(&r->str_info, kind == K_SEQ && !simple);
        }
        if (sub && sub->is_seq_of) {
            gen_cnt(&r->seq_of_info, false);
        }
        if (hk_chance(1, 8) && r->type != T(NULL) && r->type != T(OPT_NULL)) {
            r->is_open_type = true;
            r->open_type_buf_len = hk_range(1, 100);
        }
    }
    return go_on;
}

static xd_t *gen_desc(int depth, int kind, bool *used)
{
    xd_t *x = xd_new(kind == K_CHOICE);
    int off = 0, nb;
    bool simple = false;

    if (used) {
        memcpy(x->used, used, sizeof(x->used));
    }
    switch (kind) {
      case K_SEQOF:
        x->d->type = ASN1_CSTD_TYPE_SEQUENCE;
        gen_field(x, depth, kind, false, &off);
        x->d->size = ROUND_UP(off, 8);
        break;

      case K_SEQ:
        x->d->type = ASN1_CSTD_TYPE_SEQUENCE;
        nb = hk_below(6);
        if (hk_chance(1, 30) && depth < 3) {
            nb = hk_range(10, 90);
            simple = true;
        }
        for (int i = 0; i < nb; i++) {
            if (D.per && !x->d->is_extended && hk_chance(1, simple ? 30 : 8)) {
                x->d->is_extended = true;
                x->d->ext_pos = x->d->fields.len;
            }
            if (!gen_field(x, depth, kind, simple, &off)) {
                break;
            }
        }
        if (D.per && !x->d->is_extended && hk_chance(1, 10)) {
            x->d->is_extended = true;
            x->d->ext_pos = x->d->fields.len;
        }
        x->d->size = MAX(ROUND_UP(off, 8), 8);
        break;

      case K_CHOICE:
      {
        asn1_field_t f = {
            .name = "sel", .oc_t_name = "enum", .tag = ASN1_TAG_INVALID,
            .tag_len = 1, .mode = M(MANDATORY), .size = 4,
            .type = hk_chance(3, 4) ? T(enum) : T(int32_t),
        };
        int max = 8;

        asn1_reg_field(x->d, &f);
        nb = hk_range(1, 5);
        if (hk_chance(1, 30) && depth < 3) {
            nb = hk_range(10, 90);
            simple = true;
        }
        for (int i = 0; i < nb; i++) {
            int o = 8;

            if (D.per && i && !x->d->is_extended
            &&  hk_chance(1, simple ? 30 : 6))
            {
                x->d->is_extended = true;
                x->d->ext_pos = x->d->fields.len;
            }
            gen_field(x, depth, kind, simple, &o);
            max = MAX(max, o);
        }
        x->d->size = ROUND_UP(max, 8);
        asn1_int_info_set_min(&x->d->choice_info, 0);
        asn1_int_info_set_max(&x->d->choice_info,
                              (x->d->is_extended ? x->d->ext_pos
                                                 : x->d->fields.len) - 2);
        asn1_int_info_update(&x->d->choice_info, false);
        if (!D.per) {
            asn1_build_choice_table(container_of(x->d, asn1_choice_desc_t,
                                                 desc));
        }
        break;
      }
    }
    if (used) {
        memcpy(used, x->used, sizeof(x->used));
    }
    for (int i = 0; i < x->d->fields.len; i++) {
        const asn1_field_t *f = &x->d->fields.tab[i];

        if (f->type >= T(SEQUENCE) && f->type <= T(UNTAGGED_CHOICE)
        &&  xd_find(f->u.comp)->has_ext)
        {
            x->has_ext = true;
        }
    }
    D.hash = hk_mix(D.hash, kind * 1000 + x->d->fields.len);
    return x;
}

/* }}} */
/* {{{ random values */

static struct {
    bool want_bad;   /* make one value go out of its constraints */
    bool bad;        /* done */
    size_t budget;
} G;

static void ref_ber(sb_t *out, const void *st, const asn1_desc_t *d,
                    unsigned flags);

static bool in_cnt(const asn1_cnt_info_t *c, size_t n)
{
    return (n >= c->min && n <= c->max)
        || (c->extended && n >= c->ext_min && n <= c->ext_max);
}

static bool gen_len_bad(const asn1_cnt_info_t *c, size_t *len)
{
    size_t cand[] = { c->min - 1, c->max + 1, c->min / 2, 0, c->ext_max + 1 };

    if (!G.want_bad || G.bad || hk_chance(1, 2)) {
        return false;
    }
    for (int i = 0; i < countof(cand); i++) {
        if (cand[i] < 80000 && !in_cnt(c, cand[i])) {
            *len = cand[i];
            G.bad = true;
            return true;
        }
    }
    return false;
}

static size_t gen_len(const asn1_cnt_info_t *c, bool cheap)
{
    size_t len;

    if (D.per && gen_len_bad(c, &len)) {
        return len;
    }
    if (!D.per) {
        return hk_chance(1, 40) ? hk_below(70000)
             : hk_chance(1, 8) ? 120 + hk_below(200) : hk_below(20);
    }
    if (c->extended && hk_chance(1, 3)) {
        size_t lo = c->ext_min, hi = c->ext_max;

        hi = hi > lo + 400 ? lo + 400 : hi;
        len = hk_range(lo, hi);
        if (in_cnt(c, len)) {
            return len;
        }
    }
    if (c->max - c->min < 300) {
        return hk_range(c->min, c->max);
    }
    if (cheap && hk_chance(1, 10)) {
        static const size_t edges[] = {
            127, 128, 255, 256, 16383, 16384, 16385, 32768, 49152, 65535,
            65536, 65537, 81920, 131072, 131073,
        };

        len = edges[hk_below(countof(edges))];
        if (len >= c->min && len <= c->max) {
            return len;
        }
    }
    return c->min + (hk_chance(1, 2) ? hk_below(5) : hk_below(300));
}

static int64_t gen_int(const asn1_field_t *f)
{
    const asn1_int_info_t *i = &f->int_info;
    int t = f->type;
    int64_t v = int_trunc(t, hk_u64_edgy());
    int64_t lo = is_signed(t) ? int_trunc(t, 1ull << (int_bits(t) - 1)) : 0;
    int64_t hi = is_signed(t) ? -(lo + 1) : int_trunc(t, ~0ull);
    bool root, ext;

    if (!D.per) {
        return v;
    }
    for (int tries = 0;; tries++) {
        root = (!i->has_min || int_le(t, i->min.i, v))
            && (!i->has_max || int_le(t, v, i->max.i));
        ext = i->extended && (!i->has_ext_min || int_le(t, i->ext_min.i, v))
            && (!i->has_ext_max || int_le(t, v, i->ext_max.i));

        if (root || ext) {
            if (!(tries < 6 && G.want_bad && !G.bad)) {
                if (!root) {
                    hk_count("integers in the extension", 1);
                }
                return v;
            }
        } else if (G.want_bad && !G.bad) {
            G.bad = true;
            return v;
        }
        /* another candidate */
        switch (hk_below(6)) {
          case 0: v = i->has_min ? i->min.i : lo; break;
          case 1: v = i->has_max ? i->max.i : hi; break;
          case 2:
            v = i->has_min ? int_trunc(t, i->min.i + hk_below(300)) : v;
            break;
          case 3:
            v = i->has_max ? int_trunc(t, i->max.i - hk_below(300)) : v;
            break;
          case 4:
            v = i->has_max ? int_trunc(t, i->max.i + 1 + hk_below(3)) : v;
            break;
          default:
            v = int_trunc(t, hk_u64_edgy());
            break;
        }
    }
}

static void set_int(int type, void *p, int64_t v)
{
    switch (int_bits(type)) {
      case 8:  *(uint8_t *)p = v; break;
      case 16: *(uint16_t *)p = v; break;
      case 32: *(uint32_t *)p = v; break;
      case 64: *(uint64_t *)p = v; break;
    }
}

static int64_t get_int(int type, const void *p)
{
    switch (int_bits(type)) {
      case 8:  return int_trunc(type, *(uint8_t *)p);
      case 16: return int_trunc(type, *(uint16_t *)p);
      case 32: return int_trunc(type, *(uint32_t *)p);
      default: return int_trunc(type, *(uint64_t *)p);
    }
}

static void gen_tlv(sb_t *sb, const bool *used, int depth)
{
    uint8_t tag;
    SB_1k(body);

    do {
        tag = hk_below(256);
    } while (!tag || (used && used[tag]));
    sb_addc(sb, tag);
    if ((tag & 0x1f) == 0x1f) {
        for (int n = hk_below(3); n > 0; n--) {
            sb_addc(sb, 0x80 | hk_below(128));
        }
        sb_addc(sb, hk_below(128));
    }
    if (depth > 0 && hk_chance(1, 2)) {
        for (int n = hk_below(4); n > 0; n--) {
            gen_tlv(&body, NULL, depth - 1);
        }
        if (hk_chance(1, 2)) {
            sb_addc(sb, 0x80);
            sb_addsb(sb, &body);
            sb_add(sb, "\0\0", 2);
            sb_wipe(&body);
            return;
        }
    } else {
        int len = hk_chance(1, 10) ? hk_below(400) : hk_below(8);

        hk_fill(sb_growlen(&body, len), len);
    }
    if (body.len < 128 && hk_chance(3, 4)) {
        sb_addc(sb, body.len);
    } else {
        int n = body.len < 256 ? hk_range(1, 4)
              : body.len < 65536 ? hk_range(2, 4) : 4;

        sb_addc(sb, 0x80 | n);
        while (n--) {
            sb_addc(sb, (body.len >> (8 * n)) & 0xff);
        }
    }
    sb_addsb(sb, &body);
    sb_wipe(&body);
}

static void gen_value(void *st, const asn1_desc_t *d);

static void gen_item(void *p, const asn1_field_t *f, const asn1_desc_t *d)
{
    switch (f->type) {
      case T(bool):
        *(bool *)p = hk_chance(1, 2);
        break;
      case T(int8_t) ... T(uint64_t):
        set_int(f->type, p, gen_int(f));
        break;
      case T(enum):
      {
        const asn1_enum_info_t *e = f->enum_info;

        if (!D.per && hk_chance(1, 4)) {
            *(int32_t *)p = hk_u64_edgy();
        } else if (D.per && G.want_bad && !G.bad && hk_chance(1, 2)) {
            *(int32_t *)p = e->values.tab[0] - 1 - hk_below(3);
            G.bad = true;
        } else if (e->ext_values.len && hk_chance(1, 2)) {
            *(int32_t *)p = e->ext_values.tab[hk_below(e->ext_values.len)];
        } else {
            *(int32_t *)p = e->values.tab[hk_below(e->values.len)];
        }
        break;
      }
      case T(NULL):
        break;
      case T(OPT_NULL):
        *(bool *)p = true;
        break;
      case T(lstr_t):
      {
        size_t len = gen_len(&f->str_info, G.budget > 0);
        char *s = t_new_raw(char, len + 1);

        G.budget -= MIN(G.budget, len);
        hk_fill(s, len);
        *(lstr_t *)p = LSTR_INIT_V(s, len);
        break;
      }
      case T(OPEN_TYPE):
      {
        SB_1k(sb);

        gen_tlv(&sb, xd_find(d)->used, 3);
        *(lstr_t *)p = t_lstr_dup(LSTR_SB_V(&sb));
        sb_wipe(&sb);
        break;
      }
      case T(asn1_bit_string_t):
      {
        asn1_bit_string_t *bs = p;
        size_t len = gen_len(&f->str_info, G.budget > 0);
        uint8_t *s = t_new_raw(uint8_t, len / 8 + 2);

        G.budget -= MIN(G.budget, len);
        hk_fill(s, len / 8 + 1);
        if (len % 8) {
            s[len / 8] &= 0xff << (8 - len % 8);
        }
        bs->data = s;
        bs->bit_len = len;
        break;
      }
      case T(asn1_ext_t):
      {
        asn1_ext_t *e = p;
        const asn1_desc_t *sub;

        do {
            sub = D.xds[hk_below(D.nb)]->d;
        } while (xd_find(sub)->has_ext || sub->fields.len == 0);
        p_clear(e, 1);
        e->desc = sub;
        e->data = t_new(char, sub->size);
        gen_value((void *)e->data, sub);
        break;
      }
      case T(OPAQUE):
        ((opq_t *)p)->n = hk_below(300);
        break;
      case T(SEQUENCE): case T(CHOICE): case T(UNTAGGED_CHOICE):
        if (f->u.comp->is_seq_of) {
            const asn1_field_t *sf = &f->u.comp->fields.tab[0];
            asn1_void_vector_t *v = (void *)((char *)p + sf->offset);
            int tsz = sf->pointed ? 8 : sf->size;
            bool cheap = !(sf->type >= T(lstr_t)) && G.budget > 0
                      && hk_chance(1, 3) && !sf->is_open_type;
            size_t len = gen_len(&f->seq_of_info, cheap);

            if (!D.per && len > 50 && (!cheap || len > 300)) {
                len %= 50;
            }
            G.budget -= MIN(G.budget, len);
            v->len = len;
            v->data = t_new(char, len * tsz + 1);
            for (size_t i = 0; i < len; i++) {
                void *q = (char *)v->data + i * tsz;

                if (sf->pointed) {
                    q = *(void **)q = t_new(char, sf->size);
                }
                gen_item(q, sf, f->u.comp);
            }
        } else {
            gen_value(p, f->u.comp);
        }
        break;
      default:
        hk_error("unexpected type %d", f->type);
    }
}

static void set_opt_absent(void *p, const asn1_field_t *f)
{
    if (f->pointed) {
        *(void **)p = NULL;
    } else if (f->type != T(SKIP)) {
        asn1_opt_field_w(p, f->type, false);
        if (f->type == T(asn1_ext_t)) {
            ((asn1_ext_t *)p)->data = NULL;
        }
    }
}

/* the library's optional types: the flag follows the value */
static void set_opt_present(void *p, const asn1_field_t *f)
{
    switch (f->type) {
      case T(bool): ((opt_bool_t *)p)->has_field = true; break;
      case T(int8_t): case T(uint8_t):
        ((opt_i8_t *)p)->has_field = true; break;
      case T(int16_t): case T(uint16_t):
        ((opt_i16_t *)p)->has_field = true; break;
      case T(int32_t): case T(uint32_t): case T(enum):
        ((opt_i32_t *)p)->has_field = true; break;
      case T(int64_t): case T(uint64_t):
        ((opt_i64_t *)p)->has_field = true; break;
      default:
        break;
    }
}

static void gen_field_value(void *st, const asn1_field_t *f,
                            const asn1_desc_t *d)
{
    void *p = (char *)st + f->offset;

    if (f->type == T(SKIP)) {
        return;
    }
    if (f->mode == M(OPTIONAL)) {
        if (hk_chance(1, 2)) {
            set_opt_absent(p, f);
            return;
        }
        if (!f->pointed) {
            set_opt_present(p, f);
        }
    }
    if (f->pointed) {
        p = *(void **)p = t_new(char, f->size);
    }
    gen_item(p, f, d);
}

static void gen_value(void *st, const asn1_desc_t *d)
{
    if (d->is_seq_of) {
        asn1_field_t f = { .type = T(SEQUENCE), .u.comp = d };

        asn1_field_init_info(&f);
        gen_item(st, &f, d);
        return;
    }
    if (d->type == ASN1_CSTD_TYPE_CHOICE) {
        int c = hk_range(1, d->fields.len - 1);

        *(int32_t *)st = c;
        gen_field_value(st, &d->fields.tab[c], d);
        return;
    }
    for (int i = 0; i < d->fields.len; i++) {
        gen_field_value(st, &d->fields.tab[i], d);
    }
}

/* }}} */
/* {{{ comparison */

static void cmp_value(const char *key, const void *a, const void *b,
                      const asn1_desc_t *d, int depth);

static void cmp_item(const char *key, const void *a, const void *b,
                     const asn1_field_t *f, int depth)
{
    switch (f->type) {
      case T(bool):
        HK_CHECK(*(bool *)a == *(bool *)b, key, "boolean");
        break;
      case T(int8_t) ... T(uint64_t):
        HK_CHECK(get_int(f->type, a) == get_int(f->type, b), key,
                 "integer of type %d: %jd became %jd "
                 "(min %d:%jd max %d:%jd ext %d)", f->type,
                 get_int(f->type, a), get_int(f->type, b),
                 f->int_info.has_min, f->int_info.min.i,
                 f->int_info.has_max, f->int_info.max.i,
                 f->int_info.extended);
        break;
      case T(enum):
        HK_CHECK(*(int32_t *)a == *(int32_t *)b, key,
                 "enumeration: %d became %d", *(int32_t *)a, *(int32_t *)b);
        break;
      case T(lstr_t): case T(OPEN_TYPE):
      {
        const lstr_t *x = a, *y = b;

        HK_CHECK(y->data, key, "string has no data (length %d)", x->len);
        hk_check_mem(key, "string", y->data, y->len, x->data, x->len);
        break;
      }
      case T(asn1_bit_string_t):
      {
        const asn1_bit_string_t *x = a, *y = b;

        HK_CHECK(x->bit_len == y->bit_len, key, "bits: %d became %d",
                 x->bit_len, y->bit_len);
        HK_CHECK(y->data, key, "bit string has no data (length %d)",
                 x->bit_len);
        hk_check_mem(key, "bit string", y->data, y->bit_len / 8, x->data,
                     x->bit_len / 8);
        if (x->bit_len % 8) {
            int sh = 8 - x->bit_len % 8;
            int i = x->bit_len / 8;

            HK_CHECK(x->data[i] >> sh == y->data[i] >> sh, key,
                     "last bits: %x became %x", x->data[i], y->data[i]);
        }
        break;
      }
      case T(asn1_ext_t):
      {
        const asn1_ext_t *x = a, *y = b;
        SB_1k(sb);

        HK_CHECK(y->has_value, key, "external value missing");
        ref_ber(&sb, x->data, x->desc, 0);
        hk_check_mem(key, "external value", y->value.s, ps_len(&y->value),
                     sb.data, sb.len);
        sb_wipe(&sb);
        break;
      }
      case T(OPAQUE):
        HK_CHECK(((opq_t *)a)->n == ((opq_t *)b)->n, key,
                 "opaque value: %u became %u", ((opq_t *)a)->n,
                 ((opq_t *)b)->n);
        break;
      case T(SEQUENCE): case T(CHOICE): case T(UNTAGGED_CHOICE):
        cmp_value(key, a, b, f->u.comp, depth + 1);
        break;
      default:
        break;
    }
}

static bool opt_present(const void *p, const asn1_field_t *f, bool unpacked)
{
    if (f->pointed) {
        return *(void **)p;
    }
    if (unpacked && f->type == T(asn1_ext_t)) {
        return ((const asn1_ext_t *)p)->has_value;
    }
    return asn1_opt_field(p, f->type);
}

static void cmp_field(const char *key, const void *a, const void *b,
                      const asn1_field_t *f, int depth)
{
    const char *p = (const char *)a + f->offset;
    const char *q = (const char *)b + f->offset;

    if (f->type == T(SKIP) || f->type == T(NULL)) {
        return;
    }
    if (f->mode == M(OPTIONAL)) {
        bool x = opt_present(p, f, false), y = opt_present(q, f, true);

        HK_CHECK(x == y, key, "optional field of type %d: presence %d became "
                 "%d", f->type, x, y);
        if (!x) {
            return;
        }
    }
    if (f->pointed) {
        p = *(const char **)p;
        q = *(const char **)q;
        HK_CHECK(q, key, "missing pointed field");
    }
    cmp_item(key, p, q, f, depth);
}

static void cmp_value(const char *key, const void *a, const void *b,
                      const asn1_desc_t *d, int depth)
{
    if (d->is_seq_of) {
        const asn1_field_t *f = &d->fields.tab[0];
        const asn1_void_vector_t *x = (void *)((char *)a + f->offset);
        const asn1_void_vector_t *y = (void *)((char *)b + f->offset);
        int sz = f->pointed ? 8 : f->size;

        HK_CHECK(x->len == y->len, key, "sequence of %d became %d", x->len,
                 y->len);
        for (int i = 0; i < x->len; i++) {
            const char *p = (char *)x->data + i * sz;
            const char *q = (char *)y->data + i * sz;

            if (f->pointed) {
                p = *(const char **)p;
                q = *(const char **)q;
            }
            cmp_item(key, p, q, f, depth);
        }
        return;
    }
    if (d->type == ASN1_CSTD_TYPE_CHOICE) {
        int x = *(int32_t *)a, y = *(int32_t *)b;

        HK_CHECK(x == y, key, "choice %d became %d (of %d)", x, y,
                 d->fields.len - 1);
        cmp_field(key, a, b, &d->fields.tab[x], depth);
        return;
    }
    for (int i = 0; i < d->fields.len; i++) {
        cmp_field(key, a, b, &d->fields.tab[i], depth);
    }
}

/* reads every byte of a decoded value: by comparing it with itself */
static void touch_value(const char *key, const void *st, const asn1_desc_t *d);

static void touch_item(const char *key, const void *p, const asn1_field_t *f)
{
    static volatile uint64_t sink;

    switch (f->type) {
      case T(lstr_t): case T(OPEN_TYPE):
      {
        const lstr_t *s = p;

        HK_CHECK(s->len >= 0, key, "string of length %d", s->len);
        sink += hk_hash(s->data, s->len, 0);
        break;
      }
      case T(asn1_bit_string_t):
      {
        const asn1_bit_string_t *s = p;

        HK_CHECK(s->bit_len >= 0, key, "bit string of length %d", s->bit_len);
        sink += hk_hash(s->data, DIV_ROUND_UP(s->bit_len, 8), 0);
        break;
      }
      case T(asn1_ext_t):
      {
        const asn1_ext_t *e = p;

        sink += hk_hash(e->value.s, ps_len(&e->value), 0);
        break;
      }
      case T(SEQUENCE): case T(CHOICE): case T(UNTAGGED_CHOICE):
        touch_value(key, p, f->u.comp);
        break;
      case T(NULL): case T(SKIP):
        break;
      default:
        sink += hk_hash(p, f->size, 0);
        break;
    }
}

static void touch_field(const char *key, const void *st, const asn1_field_t *f)
{
    const char *p = (const char *)st + f->offset;

    if (f->type == T(SKIP) || f->type == T(NULL)
    ||  (f->mode == M(OPTIONAL) && !opt_present(p, f, true)))
    {
        return;
    }
    touch_item(key, f->pointed ? *(const char **)p : p, f);
}

static void touch_value(const char *key, const void *st, const asn1_desc_t *d)
{
    if (d->is_seq_of) {
        const asn1_field_t *f = &d->fields.tab[0];
        const asn1_void_vector_t *v = (void *)((char *)st + f->offset);
        int sz = f->pointed ? 8 : f->size;

        for (int i = 0; i < v->len; i++) {
            const char *p = (char *)v->data + i * sz;

            touch_item(key, f->pointed ? *(const char **)p : p, f);
        }
    } else if (d->type == ASN1_CSTD_TYPE_CHOICE) {
        int c = *(int32_t *)st;

        HK_CHECK(c > 0 && c < d->fields.len, key, "choice %d of %d", c,
                 d->fields.len - 1);
        touch_field(key, st, &d->fields.tab[c]);
    } else {
        for (int i = 0; i < d->fields.len; i++) {
            touch_field(key, st, &d->fields.tab[i]);
        }
    }
}

/* }}} */
/* {{{ reference BER encoder */

enum {
    B_INDEF = 1,   /* constructed fields of indefinite length, sometimes */
    B_LONG  = 2,   /* lengths not in their shortest form, sometimes      */
    B_SKIP  = 4,   /* fields to be skipped                               */
    B_TRAIL = 8,   /* unknown fields at the end of nested sequences      */
};

static void ref_len(sb_t *out, size_t len, unsigned flags)
{
    int n;

    if (len < 128 && !((flags & B_LONG) && hk_chance(1, 4))) {
        sb_addc(out, len);
        return;
    }
    for (n = 1; n < 4 && (len >> (8 * n)); n++) {
    }
    if ((flags & B_LONG) && hk_chance(1, 3)) {
        n = hk_range(n, 4);
    }
    sb_addc(out, 0x80 | n);
    while (n--) {
        sb_addc(out, (len >> (8 * n)) & 0xff);
    }
}

static void ref_int(sb_t *out, int type, int64_t v)
{
    uint8_t buf[9];
    int i;

    buf[0] = is_signed(type) || type == T(enum) ? (v < 0 ? 0xff : 0) : 0;
    for (i = 0; i < 8; i++) {
        buf[1 + i] = (uint64_t)v >> (56 - 8 * i);
    }
    /* shortest two's complement form */
    for (i = 0; i < 8; i++) {
        if (!(buf[i] == 0 && !(buf[i + 1] & 0x80))
        &&  !(buf[i] == 0xff && (buf[i + 1] & 0x80)))
        {
            break;
        }
    }
    sb_add(out, buf + i, 9 - i);
}

static void ref_item(sb_t *out, const void *p, const asn1_field_t *f,
                     unsigned flags)
{
    SB_1k(sb);
    bool constructed = false, trail = false;

    switch (f->type) {
      case T(bool):
        sb_addc(&sb, *(bool *)p ? 1 : 0);
        break;
      case T(int8_t) ... T(uint64_t):
        ref_int(&sb, f->type, get_int(f->type, p));
        break;
      case T(enum):
        ref_int(&sb, f->type, *(int32_t *)p);
        break;
      case T(NULL): case T(OPT_NULL):
        break;
      case T(lstr_t): case T(OPEN_TYPE):
        sb_add_lstr(&sb, *(lstr_t *)p);
        break;
      case T(asn1_bit_string_t):
      {
        const asn1_bit_string_t *bs = p;

        sb_addc(&sb, (8 - bs->bit_len % 8) % 8);
        sb_add(&sb, bs->data, DIV_ROUND_UP(bs->bit_len, 8));
        break;
      }
      case T(OPAQUE):
      {
        int32_t sz = opq_size(p);

        sb_addnc(&sb, sz, sz & 0xff);
        break;
      }
      case T(asn1_ext_t):
        /* its contents come back as they are */
        ref_ber(&sb, ((asn1_ext_t *)p)->data, ((asn1_ext_t *)p)->desc, 0);
        constructed = true;
        break;
      case T(SEQUENCE): case T(CHOICE):
        ref_ber(&sb, p, f->u.comp, flags);
        constructed = true;
        trail = f->type == T(SEQUENCE) && !f->u.comp->is_seq_of;
        for (int i = 0; i < f->u.comp->fields.len; i++) {
            if (f->u.comp->fields.tab[i].type == T(OPEN_TYPE)) {
                trail = false;
            }
        }
        break;
      case T(UNTAGGED_CHOICE):
        ref_ber(&sb, p, f->u.comp, flags);
        break;
      default:
        hk_error("unexpected type");
    }
    if (f->type == T(OPEN_TYPE) || f->type == T(UNTAGGED_CHOICE)) {
        sb_addsb(out, &sb);
    } else {
        if (trail && (flags & B_TRAIL) && hk_chance(1, 4)) {
            /* unknown fields, of tags nobody expects here */
            gen_tlv(&sb, xd_find(f->u.comp)->used, 2);
        }
        sb_addc(out, f->tag);
        if (constructed && (flags & B_INDEF) && hk_chance(1, 2)) {
            sb_addc(out, 0x80);
            sb_addsb(out, &sb);
            sb_add(out, "\0\0", 2);
        } else {
            ref_len(out, sb.len, flags);
            sb_addsb(out, &sb);
        }
    }
    sb_wipe(&sb);
}

static void ref_field(sb_t *out, const void *st, const asn1_field_t *f,
                      unsigned flags)
{
    const char *p = (const char *)st + f->offset;

    if (f->type == T(SKIP)) {
        if ((flags & B_SKIP) && hk_chance(1, 2)) {
            SB_1k(sb);

            gen_tlv(&sb, NULL, 2);
            sb_addc(out, f->tag);
            if (hk_chance(1, 2)) {
                ref_len(out, sb.len, flags);
                sb_addsb(out, &sb);
            } else {
                sb_addc(out, 0x80);
                sb_addsb(out, &sb);
                sb_add(out, "\0\0", 2);
            }
            sb_wipe(&sb);
        }
        return;
    }
    if (f->mode == M(OPTIONAL) && !opt_present(p, f, false)) {
        return;
    }
    ref_item(out, f->pointed ? *(const char **)p : p, f, flags);
}

static void ref_ber(sb_t *out, const void *st, const asn1_desc_t *d,
                    unsigned flags)
{
    if (d->is_seq_of) {
        const asn1_field_t *f = &d->fields.tab[0];
        const asn1_void_vector_t *v = (void *)((char *)st + f->offset);
        int sz = f->pointed ? 8 : f->size;

        for (int i = 0; i < v->len; i++) {
            const char *p = (char *)v->data + i * sz;

            ref_item(out, f->pointed ? *(const char **)p : p, f, flags);
        }
    } else if (d->type == ASN1_CSTD_TYPE_CHOICE) {
        ref_field(out, st, &d->fields.tab[*(int32_t *)st], flags);
    } else {
        for (int i = 0; i < d->fields.len; i++) {
            ref_field(out, st, &d->fields.tab[i], flags);
        }
    }
}

/* }}} */
/* {{{ BER */

static void *new_dest(const asn1_desc_t *d)
{
    void *p = (malloc)(d->size);

    memset(p, 0xa5, d->size);
    return p;
}

static void ber_decode_same(const void *data, size_t len, const void *st,
                            const asn1_desc_t *d, const char *key)
{
    t_scope;
    bool copy = hk_chance(1, 2);
    char *in = hk_exact(data, len);
    void *dst = new_dest(d);
    pstream_t ps = ps_init(in, len);
    int res = asn1_unpack_(&ps, d, t_pool(), dst, copy);

    HK_CHECK(res >= 0, key, "valid encoding of %zu bytes refused", len);
    HK_CHECK(ps_done(&ps), key, "%zu bytes of %zu not consumed", ps_len(&ps),
             len);
    if (copy && !xd_find(d)->has_ext) {
        memset(in, 0x5a, len);
    }
    cmp_value(key, st, dst, d, 0);
    (free)(dst);
    (free)(in);
}

static void mutate(sb_t *sb)
{
    for (int n = hk_range(1, 4); n > 0 && sb->len; n--) {
        int pos = hk_below(sb->len);

        switch (hk_below(8)) {
          case 0: sb->data[pos] ^= 1 << hk_below(8); break;
          case 1: sb->data[pos] = hk_rand(); break;
          case 2: sb->data[pos] = 0x80; break;
          case 3: sb->data[pos] = 0; break;
          case 4: sb_clip(sb, pos); break;
          case 5: sb_splice(sb, pos, 1, NULL, 0); break;
          case 6:
          {
            char b[3] = { hk_rand(), hk_rand(), hk_rand() };

            sb_splice(sb, pos, 0, b, hk_range(1, 3));
            break;
          }
          default: sb->data[pos] = 0x80 | hk_range(1, 5); break;
        }
    }
}

static int ber_hostile(const void *data, size_t len, const asn1_desc_t *d)
{
    t_scope;
    bool copy = hk_chance(1, 2);
    char *in = hk_exact(data, len);
    void *dst = new_dest(d);
    pstream_t ps = ps_init(in, len);
    int res = asn1_unpack_(&ps, d, t_pool(), dst, copy);

    HK_CHECK(ps.s >= in && ps.s <= in + len, "ber-hostile",
             "stream left its buffer");
    if (res >= 0) {
        touch_value("ber-hostile", dst, d);
        if (!xd_find(d)->has_ext) {
            qv_t(i32) stack;
            int sz;

            qv_init(&stack);
            sz = asn1_pack_size_(dst, d, &stack);
            if (sz >= 0) {
                uint8_t *out = (malloc)(sz);
                uint8_t *end = asn1_pack_(out, dst, d, &stack);

                HK_CHECK(end == out + sz, "ber-size", "announced %d, wrote "
                         "%zd", sz, end - out);
                ber_decode_same(out, sz, dst, d, "ber-repack");
                (free)(out);
            }
            qv_wipe(&stack);
        }
    }
    (free)(dst);
    (free)(in);
    return res;
}

static void sc_ber(void)
{
    t_scope;
    xd_t *x;

    D.per = false;
    D.hash = 0;
    x = gen_desc(hk_range(0, 3), hk_below(3), NULL);
    p_clear(&G, 1);
    for (int i = 0; i < 3; i++) {
        t_scope;
        void *st = t_new(char, x->d->size);
        qv_t(i32) stack;
        SB_1k(ref);
        uint8_t *out, *end;
        int sz;

        G.budget = 300000;
        gen_value(st, x->d);
        ref_ber(&ref, st, x->d, 0);

        qv_init(&stack);
        sz = asn1_pack_size_(st, x->d, &stack);
        HK_CHECK(sz == ref.len, "ber-size", "announced %d bytes for an "
                 "encoding of %d", sz, ref.len);
        out = (malloc)(sz);
        end = asn1_pack_(out, st, x->d, &stack);
        HK_CHECK(end == out + sz, "ber-size", "announced %d, wrote %zd", sz,
                 end - out);
        hk_check_mem("ber-encoding", "encoding", out, sz, ref.data, ref.len);
        qv_wipe(&stack);
        hk_distinct(hk_hash(out, sz, D.hash));
        ber_decode_same(out, sz, st, x->d, "ber-roundtrip");
        (free)(out);

        /* other encodings of the same value */
        for (int j = 0; j < 2; j++) {
            unsigned flags = hk_below(16);

            if (x->has_ext) {
                flags &= ~B_TRAIL;
            }
            sb_reset(&ref);
            ref_ber(&ref, st, x->d, flags);
            hk_count("alternative encodings", 1);
            ber_decode_same(ref.data, ref.len, st, x->d, "ber-alternative");
        }
        /* hostile ones */
        for (int j = 0; j < 8 && ref.len < 20000; j++) {
            SB_1k(sb);

            if (hk_chance(1, 12)) {
                int len = hk_below(30);

                hk_fill(sb_growlen(&sb, len), len);
            } else {
                sb_addsb(&sb, &ref);
                mutate(&sb);
            }
            hk_count(ber_hostile(sb.data, sb.len, x->d) < 0
                     ? "mutants refused" : "mutants accepted", 1);
            sb_wipe(&sb);
        }
        sb_wipe(&ref);
    }
    descs_wipe();
}

static void sc_berint(void)
{
    /* lengths */
    {
        uint32_t len = hk_u64_edgy(), got = ~len;
        char *in;
        pstream_t ps;
        SB_1k(sb);

        ref_len(&sb, len, hk_chance(1, 2) ? B_LONG : 0);
        sb_addc(&sb, 0x77);
        in = hk_exact(sb.data, sb.len);
        ps = ps_init(in, sb.len);
        HK_CHECK(ber_decode_len32(&ps, &got) == 0 && got == len, "ber-len",
                 "length %u read as %u", len, got);
        HK_CHECK(ps_len(&ps) == 1, "ber-len", "length %u: %zu bytes left",
                 len, ps_len(&ps));
        (free)(in);
        /* truncated */
        for (int i = 0; i < sb.len - 1; i++) {
            in = hk_exact(sb.data, i);
            ps = ps_init(in, i);
            HK_CHECK(ber_decode_len32(&ps, &got) < 0, "ber-len",
                     "length truncated to %d bytes accepted", i);
            (free)(in);
        }
    }
    /* integers */
#define TST(type, tt)  do {                                                  \
        type v = hk_u64_edgy(), got = ~v;                                    \
        pstream_t ps;                                                        \
        char *in;                                                            \
        SB_1k(sb);                                                           \
                                                                             \
        ref_int(&sb, ASN1_OBJ_TYPE_##type, (int64_t)v);                      \
        in = hk_exact(sb.data, sb.len);                                      \
        ps = ps_init(in, sb.len);                                            \
        HK_CHECK(tt(&ps, &got) >= 0 && got == v, "ber-int",                  \
                 #type " %jd read as %jd", (int64_t)v, (int64_t)got);        \
        HK_CHECK(ps_done(&ps), "ber-int", "bytes left");                     \
        (free)(in);                                                          \
    } while (0)
    TST(int16_t, ber_decode_int16);
    TST(int32_t, ber_decode_int32);
    TST(int64_t, ber_decode_int64);
    TST(uint16_t, ber_decode_uint16);
    TST(uint32_t, ber_decode_uint32);
    TST(uint64_t, ber_decode_uint64);
#undef TST

    /* hostile integers: too long ones are refused */
    {
        int len = hk_below(12);
        char *in = hk_bytes(len);
        int64_t i64;
        uint64_t u64;
        int16_t i16;
        uint32_t u32;
        pstream_t ps = ps_init(in, len);

        HK_CHECK(ber_decode_int64(&ps, &i64) < 0 || len <= 8, "ber-int",
                 "int64 of %d bytes", len);
        ps = ps_init(in, len);
        HK_CHECK(ber_decode_uint64(&ps, &u64) < 0 || len <= 8
                 || (len == 9 && !in[0]), "ber-int", "uint64 of %d bytes",
                 len);
        ps = ps_init(in, len);
        HK_CHECK(ber_decode_int16(&ps, &i16) < 0 || len <= 2, "ber-int",
                 "int16 of %d bytes", len);
        ps = ps_init(in, len);
        HK_CHECK(ber_decode_uint32(&ps, &u32) < 0 || len <= 4
                 || (len == 5 && !in[0]), "ber-int", "uint32 of %d bytes",
                 len);
        (free)(in);
    }
    /* skipping fields */
    {
        SB_1k(sb);
        int len;
        char *in;
        pstream_t ps, sub;

        gen_tlv(&sb, NULL, 4);
        len = sb.len;
        hk_distinct(hk_hash(sb.data, sb.len, 3));
        sb_adds(&sb, "zz");
        in = hk_exact(sb.data, sb.len);
        ps = ps_init(in, sb.len);
        HK_CHECK(asn1_get_ber_field(&ps, false, &sub) >= 0
                 && ps_len(&ps) == 2, "ber-skip",
                 "field of %d bytes: %zu bytes left", len, ps_len(&ps));
        HK_CHECK(sub.s == in && sub.s_end == in + len, "ber-skip",
                 "wrong field extracted");
        ps = ps_init(in, sb.len);
        HK_CHECK(asn1_skip_field(&ps) >= 0 && ps_len(&ps) == 2, "ber-skip",
                 "field of %d bytes: %zu bytes left", len, ps_len(&ps));
        (free)(in);
        for (int i = 0; i < 3; i++) {
            int cut = hk_below(len);

            in = hk_exact(sb.data, cut);
            ps = ps_init(in, cut);
            HK_CHECK(asn1_skip_field(&ps) < 0, "ber-skip",
                     "field of %d bytes cut to %d accepted", len, cut);
            (free)(in);
        }
        for (int i = 0; i < 4; i++) {
            mutate(&sb);
            in = hk_exact(sb.data, sb.len);
            ps = ps_init(in, sb.len);
            if (asn1_get_ber_field(&ps, hk_chance(1, 2), &sub) >= 0) {
                HK_CHECK(sub.s == in && sub.s_end == ps.s
                         && ps.s <= in + sb.len, "ber-skip", "out of bounds");
            }
            (free)(in);
        }
        sb_wipe(&sb);
    }
    /* bit fields and object identifiers */
    {
        t_scope;
        uint64_t bf = hk_u64_edgy();
        int min = hk_below(65);
        asn1_bit_string_t bs = t_asn1_bstring_from_bf64(bf, min);
        uint64_t back = 0;
        int top = 0;

        for (int i = 0; i < 64; i++) {
            if ((bf >> i) & 1) {
                top = i + 1;
            }
        }
        HK_CHECK(bs.bit_len == (top > min ? top : min), "ber-bf64",
                 "%jx (min %d): length %d", bf, min, bs.bit_len);
        for (int i = 0; i < bs.bit_len; i++) {
            if (bs.data[i / 8] & (0x80 >> (i % 8))) {
                back |= 1ull << i;
            }
        }
        HK_CHECK(back == bf, "ber-bf64", "%jx became %jx", bf, back);
    }
    {
        t_scope;
        int len = hk_range(1, 12);
        char *s = hk_bytes(len);
        char exp[100], *w = exp;

        for (int i = 0; i < len; i++) {
            w += sprintf(w, "%s%d", i ? "." : "", (uint8_t)s[i]);
        }
        HK_CHECK(strequal(t_asn1_oid_print(LSTR_INIT_V(s, len)), exp),
                 "ber-oid", "expected %s", exp);
        (free)(s);
    }
}

/* }}} */
/* {{{ PER */

static void per_decode_same(const void *data, size_t len, const void *st,
                            const asn1_desc_t *d, const char *key,
                            bool exact)
{
    t_scope;
    bool copy = hk_chance(1, 2);
    char *in = hk_exact(data, len);
    void *dst = new_dest(d);
    pstream_t ps = ps_init(in, len);
    int res = t_aper_decode_desc(&ps, d, copy, dst);

    HK_CHECK(res >= 0, key, "valid encoding of %zu bytes refused", len);
    /* a value of no bit at all is one null byte */
    HK_CHECK(ps_done(&ps) || (len == 1 && ps.s == in && !in[0]), key,
             "%zu bytes of %zu not consumed", ps_len(&ps), len);
    if (copy) {
        memset(in, 0x5a, len);
    }
    cmp_value(key, st, dst, d, 0);
    (free)(dst);
    (free)(in);
}

static int per_hostile(const void *data, size_t len, const asn1_desc_t *d)
{
    t_scope;
    bool copy = hk_chance(1, 2);
    char *in = hk_exact(data, len);
    void *dst = new_dest(d);
    pstream_t ps = ps_init(in, len);
    int res = t_aper_decode_desc(&ps, d, copy, dst);

    if (res >= 0) {
        SB_1k(sb);

        HK_CHECK(ps.s >= in && ps.s_end <= in + len && ps.s <= ps.s_end,
                 "per-hostile", "stream left its buffer");
        touch_value("per-hostile", dst, d);
        if (aper_encode_desc(&sb, dst, d) >= 0) {
            per_decode_same(sb.data, sb.len, dst, d, "per-repack", false);
        }
        sb_wipe(&sb);
    }
    (free)(dst);
    (free)(in);
    return res;
}

static void sc_per(void)
{
    t_scope;
    xd_t *x;

    D.per = true;
    D.hash = 0;
    x = gen_desc(hk_range(0, 3), hk_below(2), NULL);
    for (int i = 0; i < 3; i++) {
        t_scope;
        void *st = t_new(char, x->d->size);
        SB_1k(sb);
        int pfx = hk_chance(1, 2) ? 0 : hk_below(5);
        int res;

        p_clear(&G, 1);
        G.budget = 300000;
        G.want_bad = hk_chance(1, 4);
        gen_value(st, x->d);
        for (int j = 0; j < pfx; j++) {
            sb_addc(&sb, 0xf0 + j);
        }
        res = aper_encode_desc(&sb, st, x->d);
        if (G.bad) {
            hk_count("values out of their constraints", 1);
            HK_CHECK(res < 0, "per-constraint",
                     "value out of its constraints accepted");
            sb_wipe(&sb);
            continue;
        }
        HK_CHECK(res >= 0, "per-encode", "valid value refused");
        HK_CHECK(sb.len > 0, "per-empty", "complete encoding of no byte");
        for (int j = 0; j < pfx; j++) {
            HK_CHECK((uint8_t)sb.data[j] == 0xf0 + j, "per-encode",
                     "previous contents of the buffer damaged");
        }
        sb_skip(&sb, pfx);
        hk_distinct(hk_hash(sb.data, sb.len, D.hash));
        if (sb.len > 20000) {
            hk_count("long encodings", 1);
        }
        per_decode_same(sb.data, sb.len, st, x->d, "per-roundtrip", true);

        /* truncated: something is missing, unless nothing was to be read */
        for (int j = 0; j < 3 && sb.len > 1; j++) {
            per_hostile(sb.data, hk_below(sb.len), x->d);
        }
        for (int j = 0; j < 8 && sb.len < 20000; j++) {
            SB_1k(m);

            if (hk_chance(1, 6)) {
                int len = hk_below(40);

                hk_fill(sb_growlen(&m, len), len);
                if (hk_chance(1, 3)) {
                    for (int k = hk_below(20); k < len; k++) {
                        m.data[k] = 0xff - hk_chance(1, 12);
                    }
                }
            } else {
                sb_addsb(&m, &sb);
                mutate(&m);
            }
            hk_count(per_hostile(m.data, m.len, x->d) < 0
                     ? "mutants refused" : "mutants accepted", 1);
            sb_wipe(&m);
        }
        sb_wipe(&sb);
    }
    descs_wipe();
}

/* choices and sequences: indexes and counts at the limits of their range */
static void sc_perext(void)
{
    t_scope;
    static const uint64_t big[] = { 0, 1, 63, 64, 65, 255, 256, 65535 };
    xd_t *x;
    SB_1k(sb);
    bb_t bb;

    D.per = true;
    D.hash = 0;
    do {
        descs_wipe();
        x = gen_desc(hk_below(2), hk_below(2), NULL);
    } while (!x->d->is_extended);

    for (int i = 0; i < 6; i++) {
        uint64_t n = hk_chance(1, 2) ? big[hk_below(countof(big))]
                                     : -(uint64_t)hk_below(8);
        bit_stream_t bs;
        size_t back;

        bb_init_sb(&bb, &sb);
        bb_be_add_bit(&bb, true);
        if (x->d->type == ASN1_CSTD_TYPE_SEQUENCE) {
            bb_be_add_bits(&bb, hk_rand() & 0xff,
                           MIN(x->d->opt_fields.len, 8));
            if (x->d->opt_fields.len > 8) {
                bb_be_add_bits(&bb, 0, MIN(x->d->opt_fields.len - 8, 56));
            }
        }
        aper_write_nsnnwn(&bb, n);
        for (int k = hk_below(30); k > 0; k--) {
            bb_be_add_bits(&bb, hk_chance(1, 3) ? 1 : hk_rand() & 0xff, 8);
        }
        bb_transfer_to_sb(&bb, &sb);
        bb_wipe(&bb);
        hk_distinct(hk_hash(sb.data, sb.len, D.hash));
        per_hostile(sb.data, sb.len, x->d);
        sb_reset(&sb);

        /* the number itself comes back */
        n = hk_u64_edgy();
        bb_init_sb(&bb, &sb);
        bb_be_add_bits(&bb, 0, hk_below(8));
        back = bb.len;
        aper_write_nsnnwn(&bb, n);
        bs = bs_init_bb(&bb);
        __bs_skip(&bs, back);
        HK_CHECK(aper_read_nsnnwn(&bs, &back) >= 0 && back == n
                 && bs_done(&bs), "per-nsnnwn", "%ju became %zu", n, back);
        bb_wipe(&bb);
        sb_reset(&sb);
    }
    sb_wipe(&sb);
    descs_wipe();
}

/* }}} */

static void no_log(const log_ctx_t *ctx, const char *fmt, va_list va)
{
}

int main(int argc, char **argv)
{
    static hk_scenario_t const scs[] = {
        { "ber", sc_ber, 150000, 2000000 },
        { "berint", sc_berint, 300000, 4000000 },
        { "per", sc_per, 20000, 300000 },
        { "perext", sc_perext, 30000, 300000 },
    };

    aper_set_decode_log_level(5);
    log_set_handler(&no_log);
    return hk_main(argc, argv, scs, countof(scs));
}
