/* Generic IOP value generator, independent comparison, cloning, mutation.
 *
 * Everything here walks the type descriptors itself, so that it does not
 * depend on the packers, duplicators or comparators it is used to judge. */
#ifndef VERIF_IOPGEN_H
#define VERIF_IOPGEN_H

#include <lib-common/iop.h>
#include <math.h>
#include "hk.h"
#include "tests/iop/tstiop.iop.h"
#include "tests/iop/tstiop_inheritance.iop.h"
#include "tests/iop/tstiop_void_type.iop.h"
#include "tests/iop/tstiop_typedef.iop.h"
#include "verif_iop/vt.iop.h"
#include "verif_iop/vrand.iop.h"
extern iop_pkg_t const vev_old__pkg; /* enumerators clash: no header */
extern iop_pkg_t const vev_new__pkg;

#define IG_MAX  2048

typedef struct ig_t {
    int  fuel;        /* how many aggregates may still be created */
    bool utf8;        /* strings are valid UTF-8, no NUL */
    bool xml;         /* strings contain only XML-representable characters */
    bool xmlsnip;     /* xml fields hold XML fragments */
    bool finite;      /* no NaN nor infinities */
    bool known_enums; /* only listed enum values */
    bool no_neg_zero;
    bool nonneg;      /* no negative integer */
    bool small;       /* short strings and arrays */
    int  maxrep;
    unsigned opt_num; /* chance /8 of an optional being present */
} ig_t;

static const iop_struct_t *ig_structs_g[IG_MAX];  /* not classes */
static int ig_nstructs_g;
static const iop_struct_t *ig_classes_g[IG_MAX];  /* every class */
static int ig_nclasses_g;
static const iop_struct_t *ig_all_g[IG_MAX];
static int ig_nall_g;

static inline bool ig_is_agg(const iop_field_t *f)
{
    return f->type == IOP_T_STRUCT || f->type == IOP_T_UNION;
}
static inline bool ig_is_str(const iop_field_t *f)
{
    return f->type == IOP_T_STRING || f->type == IOP_T_DATA
        || f->type == IOP_T_XML;
}
static inline bool ig_is_class(const iop_field_t *f)
{
    return f->type == IOP_T_STRUCT && iop_struct_is_class(f->u1.st_desc);
}
/* C representation of one element is a pointer */
static inline bool ig_ptr(const iop_field_t *f)
{
    return ig_is_agg(f)
        && (f->repeat == IOP_R_OPTIONAL || ig_is_class(f)
        ||  iop_field_is_reference(f));
}
static inline size_t ig_esize(const iop_field_t *f)
{
    if (ig_ptr(f)) {
        return sizeof(void *);
    }
    if (ig_is_agg(f)) {
        return f->u1.st_desc->size;
    }
    switch (f->type) {
      case IOP_T_I8: case IOP_T_U8: case IOP_T_BOOL: return 1;
      case IOP_T_I16: case IOP_T_U16: return 2;
      case IOP_T_I32: case IOP_T_U32: case IOP_T_ENUM: return 4;
      case IOP_T_VOID: return 0;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        return sizeof(lstr_t);
      default: return 8;
    }
}

static void ig_add_pkg(const iop_pkg_t *pkg)
{
    for (const iop_struct_t *const *st = pkg->structs; *st; st++) {
        if (ig_nall_g >= IG_MAX) {
            hk_error("too many types");
        }
        ig_all_g[ig_nall_g++] = *st;
        if (iop_struct_is_class(*st)) {
            ig_classes_g[ig_nclasses_g++] = *st;
        } else {
            ig_structs_g[ig_nstructs_g++] = *st;
        }
    }
}

static void ig_init(void)
{
    static bool done;
    static const iop_pkg_t *pkgs[16];
    int n = 0;

    if (done) {
        return;
    }
    done = true;
    pkgs[n++] = &tstiop__pkg;
    pkgs[n++] = &tstiop_inheritance__pkg;
    pkgs[n++] = &tstiop_void_type__pkg;
    pkgs[n++] = &tstiop_typedef__pkg;
    pkgs[n++] = &vt__pkg;
    pkgs[n++] = &vrand__pkg;
    pkgs[n++] = &vev_old__pkg;
    pkgs[n++] = &vev_new__pkg;
    iop_register_packages(pkgs, n, 0);
    for (int i = 0; i < n; i++) {
        ig_add_pkg(pkgs[i]);
    }
}

static bool ig_is_a(const iop_struct_t *st, const iop_struct_t *parent)
{
    while (st) {
        if (st == parent) {
            return true;
        }
        st = st->class_attrs->parent;
    }
    return false;
}

/* random concrete class derived from (or equal to) st, NULL if none */
/* private classes: avoided when possible if nopriv, noted in any case */
static bool ig_nopriv_g;
static bool ig_priv_used_g;

static const iop_struct_t *ig_pick_class(const iop_struct_t *st)
{
    const iop_struct_t *cand[IG_MAX];
    const iop_struct_t *res;
    int n = 0;

    for (int i = 0; i < ig_nclasses_g; i++) {
        const iop_struct_t *c = ig_classes_g[i];

        if (!c->class_attrs->is_abstract && ig_is_a(c, st)) {
            cand[n++] = c;
        }
    }
    if (!n) {
        return NULL;
    }
    res = cand[hk_below(n)];
    if (ig_nopriv_g) {
        for (int i = 0; i < 8 && res->class_attrs->is_private; i++) {
            res = cand[hk_below(n)];
        }
    }
    ig_priv_used_g |= res->class_attrs->is_private;
    return res;
}

static lstr_t t_ig_str(ig_t *g, iop_type_t type)
{
    static const char *words[] = {
        "", "a", "null", "true", "false", "~", "yes", "no", "on", "off",
        "12", "-3", "1.5", "0x10", "1e3", ".5", "+1", "inf", "nan", ".nan",
        "-", "- a", "?", ":", "a: b", "a:b", "#c", "a #c", "'", "\"",
        "\\", "\\n", "{", "}", "[", "]", ",", "&a", "*a", "!t", "|", ">",
        "%", "@x", "`", "<", ">", "&amp;", "]]>", "<a>", "/*", "//", " ",
        " a", "a ", "\t", "\n", "a\nb", "\r\n", "key=val", "$x", "a\\",
        "\"q\"", "'s'", "é", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "---",
        "...", "@include(\"x\")", "k", "1Ki", "42G", "2020-01-01", "<<",
        "a'b", "a\"b", "$include", "a\\u0041", "\xc2\x85", "\xe2\x80\xa8",
        "0", "-0", "00", "1_000", "Infinity", "NaN", "null ", "=", "a{b",
    };
    char buf[600];
    size_t len = 0;

    if ((g->xml || g->xmlsnip) && type == IOP_T_XML) {
        static const char *xmls[] = {
            "", "<a/>", "<a>b</a>", "<x><y>1</y><z/></x>", "text",
            "<a b=\"c\">d</a>", "<a>&lt;&amp;</a>", "<a/><b/>",
        };
        const char *s = xmls[hk_below(countof(xmls))];

        return t_lstr_dup(LSTR(s));
    }
    switch (hk_below(g->small ? 3 : 5)) {
      case 0: {
        const char *w = words[hk_below(countof(words))];

        len = strlen(w);
        memcpy(buf, w, len);
      } break;

      case 1:
        while (len < 40 && hk_chance(3, 4)) {
            const char *w = words[hk_below(countof(words))];

            memcpy(buf + len, w, strlen(w));
            len += strlen(w);
        }
        break;

      case 2: {
        int n = hk_below(12);

        for (int i = 0; i < n; i++) {
            buf[len++] = g->utf8 || g->xml ? 1 + hk_below(127)
                                           : hk_below(256);
        }
      } break;

      case 3: {
        /* around the length encoding limits */
        static const int lens[] = { 126, 127, 128, 254, 255, 256, 257, 300 };
        int n = lens[hk_below(countof(lens))];

        for (int i = 0; i < n; i++) {
            buf[len++] = 'a' + hk_below(26);
        }
      } break;

      default:
        len = hk_utf8(buf, hk_below(60));
        break;
    }
    if (g->utf8 || g->xml) {
        size_t w = 0;

        for (size_t i = 0; i < len; i++) {
            unsigned char c = buf[i];

            if (c == 0) {
                c = ' ';
            }
            if (g->xml && c < 32) {
                /* \n, \t are allowed but normalised in some contexts */
                c = c == '\n' || c == '\t' ? c : '.';
            }
            buf[w++] = c;
        }
        len = w;
    }
    if (g->xml && len) {
        bool blank = true;

        /* text made only of blanks is formatting in XML */
        for (size_t i = 0; i < len; i++) {
            blank = blank && strchr(" \t\r\n", buf[i]);
        }
        if (blank) {
            buf[0] = '_';
        }
    }
    {
        char *s = t_new_raw(char, len + 1);

        memcpy(s, buf, len);
        s[len] = '\0';
        return LSTR_INIT_V(s, len);
    }
}

static void t_ig_fill(const iop_struct_t *st, void *v, ig_t *g);

static void *t_ig_new(const iop_struct_t *st, ig_t *g)
{
    void *v;

    if (iop_struct_is_class(st)) {
        const iop_struct_t *c = ig_pick_class(st);

        if (!c) {
            return NULL;
        }
        st = c;
    }
    g->fuel--;
    v = mp_new(t_pool(), char, st->size);
    t_ig_fill(st, v, g);
    return v;
}

static void ig_scalar(const iop_field_t *f, void *dst, ig_t *g)
{
    uint64_t u = hk_u64_edgy();
    double d;
    int32_t e;
    uint8_t b;

    switch (f->type) {
      case IOP_T_I8: case IOP_T_U8:
        memcpy(dst, &u, 1);
        break;
      case IOP_T_I16: case IOP_T_U16:
        if (hk_chance(1, 3)) {
            u = hk_range(-130, 300);
        }
        memcpy(dst, &u, 2);
        break;
      case IOP_T_I32: case IOP_T_U32:
        if (hk_chance(1, 3)) {
            u = hk_range(-40000, 70000);
        }
        memcpy(dst, &u, 4);
        break;
      case IOP_T_I64: case IOP_T_U64:
        memcpy(dst, &u, 8);
        break;
      case IOP_T_BOOL:
        b = u & 1;
        memcpy(dst, &b, 1);
        break;
      case IOP_T_ENUM: {
        const iop_enum_t *en = f->u1.en_desc;
        unsigned fl = en->flags;

        if ((g->known_enums || TST_BIT(&fl, IOP_ENUM_STRICT)
        ||  hk_chance(2, 3)) && en->enum_len)
        {
            e = en->values[hk_below(en->enum_len)];
        } else {
            e = hk_i64_edgy();
        }
        if (g->nonneg && e < 0) {
            e = 0;
        }
        memcpy(dst, &e, 4);
      } break;
      case IOP_T_DOUBLE:
        d = hk_double_edgy();
        if (!g->finite && hk_chance(1, 30)) {
            d = hk_chance(1, 2) ? NAN : (hk_chance(1, 2) ? INFINITY
                                                         : -INFINITY);
        }
        if (g->no_neg_zero && d == 0) {
            d = 0;
        }
        memcpy(dst, &d, 8);
        break;
      default:
        hk_error("unexpected scalar type %d", f->type);
    }
    if (g->nonneg && f->type <= IOP_T_U64) {
        /* clear the sign bit, whatever the width */
        ((byte *)dst)[ig_esize(f) - 1] &= 0x7f;
    }
}

static bool ig_defval(const iop_field_t *f, void *dst)
{
    switch (f->type) {
      case IOP_T_ENUM: {
        int32_t e = f->u0.defval_enum;

        memcpy(dst, &e, 4);
      } break;
      case IOP_T_DOUBLE:
        memcpy(dst, &f->u1.defval_d, 8);
        break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML:
        *(lstr_t *)dst = LSTR_INIT_V(f->u1.defval_data, f->u0.defval_len);
        break;
      default:
        memcpy(dst, &f->u1.defval_u64, ig_esize(f));
        break;
    }
    return true;
}

/* one element of the field; false: could not be built */
static bool t_ig_elem(const iop_field_t *f, void *dst, ig_t *g)
{
    if (f->type == IOP_T_VOID) {
        return true;
    }
    if (ig_is_agg(f)) {
        if (ig_ptr(f)) {
            *(void **)dst = t_ig_new(f->u1.st_desc, g);
            return *(void **)dst != NULL;
        }
        g->fuel--;
        t_ig_fill(f->u1.st_desc, dst, g);
        return true;
    }
    if (ig_is_str(f)) {
        *(lstr_t *)dst = t_ig_str(g, f->type);
        return true;
    }
    ig_scalar(f, dst, g);
    return true;
}

static void t_ig_field(const iop_field_t *f, byte *v, ig_t *g)
{
    byte *dst = v + f->data_offs;
    size_t esz = ig_esize(f);

    switch (f->repeat) {
      case IOP_R_REQUIRED:
        if (!t_ig_elem(f, dst, g)) {
            hk_error("cannot build required field %s", f->name.s);
        }
        break;

      case IOP_R_DEFVAL:
        if (!g->nonneg && hk_chance(1, 3)) {
            ig_defval(f, dst);
        } else {
            t_ig_elem(f, dst, g);
        }
        break;

      case IOP_R_OPTIONAL: {
        bool set = hk_chance(g->opt_num, 8);

        if (ig_is_agg(f)) {
            *(void **)dst = NULL;
            if (g->fuel > 0 && set) {
                t_ig_elem(f, dst, g);
            }
        } else
        if (ig_is_str(f)) {
            *(lstr_t *)dst = LSTR_NULL_V;
            if (set) {
                t_ig_elem(f, dst, g);
            }
        } else
        if (f->type == IOP_T_VOID) {
            *(bool *)dst = set;
        } else {
            if (set) {
                t_ig_elem(f, dst, g);
                /* opt_x_t: value, then has_field, packed at the next
                 * multiple of the value alignment: offset esz */
                dst[esz] = 1;
            } else {
                dst[esz] = 0;
            }
        }
      } break;

      case IOP_R_REPEATED: {
        int n = 0;
        byte *tab;
        unsigned fl = f->flags;

        if (!ig_is_agg(f) || g->fuel > 0) {
            switch (hk_below(6)) {
              case 0: case 1: n = 0; break;
              case 2: n = 1; break;
              case 3: n = hk_below(20); break;
              case 4:
                n = esz <= 8 && !g->small && !ig_is_agg(f)
                  ? hk_below(300) : hk_below(4);
                break;
              default: n = 2 + hk_below(3); break;
            }
            n = MIN(n, g->maxrep);
        }
        if (n == 0 && TST_BIT(&fl, IOP_FIELD_NO_EMPTY_ARRAY)) {
            n = 1;
        }
        tab = mp_new(t_pool(), byte, MAX(1, n * esz));
        for (int i = 0; i < n; i++) {
            if (ig_is_agg(f) && g->fuel <= 0 && i) {
                n = i;
                break;
            }
            if (!t_ig_elem(f, tab + i * esz, g)) {
                n = i;
                break;
            }
        }
        ((lstr_t *)dst)->s = n ? (void *)tab : NULL;
        ((iop_array_i8_t *)dst)->len = n;
      } break;
    }
}

static void t_ig_fill(const iop_struct_t *st, void *v, ig_t *g)
{
    if (st->is_union) {
        const iop_field_t *f = NULL;

        for (int tries = 0; tries < 200; tries++) {
            f = &st->fields[hk_below(st->fields_len)];
            if (ig_is_agg(f) && g->fuel <= 0 && tries <= 50) {
                continue;
            }
            if (ig_is_agg(f) && iop_struct_is_class(f->u1.st_desc)
            &&  !ig_pick_class(f->u1.st_desc))
            {
                continue;
            }
            iop_union_set_tag(st, f->tag, v);
            if (t_ig_elem(f, (byte *)v + f->data_offs, g)) {
                return;
            }
        }
        hk_error("cannot build union %s", st->fullname.s);
    }
    if (iop_struct_is_class(st)) {
        *(const iop_struct_t **)v = st;
        for (; st; st = st->class_attrs->parent) {
            for (int i = 0; i < st->fields_len; i++) {
                t_ig_field(&st->fields[i], v, g);
            }
        }
        return;
    }
    for (int i = 0; i < st->fields_len; i++) {
        t_ig_field(&st->fields[i], v, g);
    }
}

/* {{{ Required-only depth: types which cannot be instantiated finitely */

static int ig_min_depth(const iop_struct_t *st, int lim)
{
    int worst = 0;
    bool any = false;
    int best = 1000;

    if (lim <= 0) {
        return 1000;
    }
    if (st->is_union) {
        for (int i = 0; i < st->fields_len; i++) {
            const iop_field_t *f = &st->fields[i];
            int d = ig_is_agg(f) ? ig_min_depth(f->u1.st_desc, lim - 1) + 1
                                 : 0;

            best = MIN(best, d);
        }
        return best;
    }
    if (iop_struct_is_class(st)) {
        for (int i = 0; i < ig_nclasses_g; i++) {
            const iop_struct_t *c = ig_classes_g[i];

            if (!c->class_attrs->is_abstract && ig_is_a(c, st)) {
                any = true;
            }
        }
        if (!any) {
            return 1000;
        }
    }
    for (const iop_struct_t *s = st; s;
         s = iop_struct_is_class(s) ? s->class_attrs->parent : NULL)
    {
        for (int i = 0; i < s->fields_len; i++) {
            const iop_field_t *f = &s->fields[i];

            if (f->repeat == IOP_R_REQUIRED && ig_is_agg(f)) {
                int d = ig_min_depth(f->u1.st_desc, lim - 1) + 1;

                worst = MAX(worst, d);
            }
        }
    }
    return worst;
}

/* }}} */
/* {{{ Independent equality; path of the first difference in ig_path_g */

static char ig_path_g[512];

static bool ig_equal(const iop_struct_t *st, const void *a, const void *b);

static char ig_diff_g[1024];

/* remember two differing leaves, for the message */
static bool ig_leaf_diff(const iop_field_t *f, const void *a, const void *b)
{
    int pos = 0;

    for (int k = 0; k < 2; k++) {
        const byte *p = k ? b : a;
        size_t n = ig_esize(f);

        if (ig_is_str(f)) {
            const lstr_t *s = (const void *)p;

            p = (const byte *)s->s;
            n = s->len;
        } else
        if (f->type == IOP_T_DOUBLE) {
            double d;

            memcpy(&d, p, 8);
            pos += snprintf(ig_diff_g + pos, 100, "%s%.17g", k ? " vs " : "",
                            d);
            continue;
        }
        pos += snprintf(ig_diff_g + pos, 100, "%s[%zu]", k ? " vs " : "", n);
        for (size_t i = 0; i < n && i < 100; i++) {
            if (ig_is_str(f) && p[i] >= 32 && p[i] < 127 && p[i] != '\\') {
                ig_diff_g[pos++] = p[i];
            } else {
                pos += snprintf(ig_diff_g + pos, 10, "\\x%02x", p[i]);
            }
        }
        ig_diff_g[pos] = '\0';
    }
    return false;
}

/* set when only one of the values holds an optional structure */
static bool ig_presence_g __attribute__((unused));

/* -0 and 0 are the same */
static bool ig_zeros_g;

static bool ig_eq_elem(const iop_field_t *f, const void *a, const void *b)
{
    if (ig_is_agg(f)) {
        if (ig_ptr(f)) {
            a = *(const void **)a;
            b = *(const void **)b;
        }
        return ig_equal(f->u1.st_desc, a, b);
    }
    if (ig_is_str(f)) {
        const lstr_t *x = a, *y = b;

        if (f->type == IOP_T_XML && lstr_equal(*x, LSTR("<a></a>"))
        &&  lstr_equal(*y, LSTR("<a/>")))
        {
            /* same fragment (default value in tstiop) */
            return true;
        }
        return (x->len == y->len && !memcmp(x->s ?: "", y->s ?: "", x->len))
            || ig_leaf_diff(f, a, b);
    }
    if (f->type == IOP_T_DOUBLE) {
        double x, y;

        memcpy(&x, a, 8);
        memcpy(&y, b, 8);
        return !memcmp(a, b, 8) || (isnan(x) && isnan(y))
            || (ig_zeros_g && !x && !y)
            || ig_leaf_diff(f, a, b);
    }
    return !memcmp(a, b, ig_esize(f)) || ig_leaf_diff(f, a, b);
}

static bool ig_eq_field(const iop_field_t *f, const byte *va, const byte *vb)
{
    const byte *a = va + f->data_offs, *b = vb + f->data_offs;
    size_t esz = ig_esize(f);

    switch (f->repeat) {
      case IOP_R_REQUIRED:
      case IOP_R_DEFVAL:
        if (f->type == IOP_T_VOID) {
            return true;
        }
        return ig_eq_elem(f, a, b);

      case IOP_R_OPTIONAL:
        if (ig_is_agg(f)) {
            if (!*(void **)a || !*(void **)b) {
                ig_presence_g |= *(void **)a != *(void **)b;
                return *(void **)a == *(void **)b;
            }
            return ig_eq_elem(f, a, b);
        }
        if (ig_is_str(f)) {
            const lstr_t *x = (void *)a, *y = (void *)b;

            if (!x->s || !y->s) {
                return x->s == y->s;
            }
            return ig_eq_elem(f, a, b);
        }
        if (f->type == IOP_T_VOID) {
            return *a == *b;
        }
        if (!a[esz] != !b[esz]) {
            return false;
        }
        return !a[esz] || ig_eq_elem(f, a, b);

      case IOP_R_REPEATED: {
        const iop_array_i8_t *x = (void *)a, *y = (void *)b;

        if (x->len != y->len) {
            return false;
        }
        for (int i = 0; i < x->len; i++) {
            if (!ig_eq_elem(f, (byte *)x->tab + i * esz,
                            (byte *)y->tab + i * esz))
            {
                return false;
            }
        }
        return true;
      }
    }
    return false;
}

static bool ig_equal(const iop_struct_t *st, const void *a, const void *b)
{
    if (st->is_union) {
        int ta = iop_union_get_tag(st, a), tb = iop_union_get_tag(st, b);

        if (ta != tb) {
            snprintf(ig_path_g, sizeof(ig_path_g), "%s: tags %d and %d",
                     st->fullname.s, ta, tb);
            return false;
        }
        for (int i = 0; i < st->fields_len; i++) {
            const iop_field_t *f = &st->fields[i];

            if (f->tag == ta) {
                if (f->type == IOP_T_VOID) {
                    return true;
                }
                if (!ig_eq_elem(f, (byte *)a + f->data_offs,
                                (byte *)b + f->data_offs))
                {
                    if (!ig_is_agg(f)) {
                        snprintf(ig_path_g, sizeof(ig_path_g), "%s.%s",
                                 st->fullname.s, f->name.s);
                    }
                    return false;
                }
                return true;
            }
        }
        snprintf(ig_path_g, sizeof(ig_path_g), "%s: unknown tag %d",
                 st->fullname.s, ta);
        return false;
    }
    if (iop_struct_is_class(st)) {
        const iop_struct_t *ca = *(const iop_struct_t **)a;
        const iop_struct_t *cb = *(const iop_struct_t **)b;

        if (ca != cb) {
            snprintf(ig_path_g, sizeof(ig_path_g), "%s: classes %s and %s",
                     st->fullname.s, ca->fullname.s, cb->fullname.s);
            return false;
        }
        st = ca;
    }
    for (const iop_struct_t *s = st; s;
         s = iop_struct_is_class(s) ? s->class_attrs->parent : NULL)
    {
        for (int i = 0; i < s->fields_len; i++) {
            const iop_field_t *f = &s->fields[i];

            ig_path_g[0] = 0;
            if (!ig_eq_field(f, a, b)) {
                if (!*ig_path_g) {
                    snprintf(ig_path_g, sizeof(ig_path_g), "%s.%s",
                             s->fullname.s, f->name.s);
                }
                return false;
            }
        }
    }
    return true;
}

/* }}} */
/* {{{ Walk: every slot of a value */

typedef enum ig_slot_kind_t {
    IG_SCALAR,     /* p: the value of a non-aggregate, non-void element */
    IG_STRING,     /* p: lstr_t of a present string */
    IG_OPTIONAL,   /* p: the whole field storage */
    IG_ARRAY,      /* p: the array */
    IG_UNION,      /* p: the union, st: its description */
} ig_slot_kind_t;

typedef struct ig_slot_t {
    ig_slot_kind_t      kind;
    const iop_field_t  *f;
    const iop_struct_t *st;
    void               *p;
} ig_slot_t;

#define IG_SLOTS  60000
static ig_slot_t ig_slots_g[IG_SLOTS];
static int ig_nslots_g;

static void ig_slot(ig_slot_kind_t k, const iop_field_t *f,
                    const iop_struct_t *st, void *p)
{
    if (ig_nslots_g < IG_SLOTS) {
        ig_slots_g[ig_nslots_g++] = (ig_slot_t){ k, f, st, p };
    }
}

static bool ig_walk_priv_g;  /* a private class was met */

static void ig_walk(const iop_struct_t *st, void *v);

static void ig_walk_elem(const iop_struct_t *st, const iop_field_t *f,
                         void *p)
{
    if (f->type == IOP_T_VOID) {
        return;
    }
    if (ig_is_agg(f)) {
        ig_walk(f->u1.st_desc, ig_ptr(f) ? *(void **)p : p);
    } else {
        ig_slot(ig_is_str(f) ? IG_STRING : IG_SCALAR, f, st, p);
    }
}

static void ig_walk(const iop_struct_t *st, void *v)
{
    if (st->is_union) {
        int tag = iop_union_get_tag(st, v);

        ig_slot(IG_UNION, NULL, st, v);
        for (int i = 0; i < st->fields_len; i++) {
            if (st->fields[i].tag == tag) {
                ig_walk_elem(st, &st->fields[i],
                             (byte *)v + st->fields[i].data_offs);
            }
        }
        return;
    }
    if (iop_struct_is_class(st)) {
        st = *(const iop_struct_t **)v;
        ig_walk_priv_g |= st->class_attrs->is_private;
    }
    for (const iop_struct_t *s = st; s;
         s = iop_struct_is_class(s) ? s->class_attrs->parent : NULL)
    {
        for (int i = 0; i < s->fields_len; i++) {
            const iop_field_t *f = &s->fields[i];
            byte *p = (byte *)v + f->data_offs;
            size_t esz = ig_esize(f);

            switch (f->repeat) {
              case IOP_R_REQUIRED:
              case IOP_R_DEFVAL:
                ig_walk_elem(s, f, p);
                break;

              case IOP_R_OPTIONAL: {
                bool set;

                ig_slot(IG_OPTIONAL, f, s, p);
                if (ig_is_agg(f)) {
                    set = *(void **)p != NULL;
                } else
                if (ig_is_str(f)) {
                    set = ((lstr_t *)p)->s != NULL;
                } else {
                    set = f->type != IOP_T_VOID && p[esz];
                }
                if (set) {
                    ig_walk_elem(s, f, p);
                }
              } break;

              case IOP_R_REPEATED: {
                iop_array_i8_t *a = (void *)p;

                ig_slot(IG_ARRAY, f, s, p);
                for (int k = 0; k < a->len; k++) {
                    ig_walk_elem(s, f, (byte *)a->tab + k * esz);
                }
              } break;
            }
        }
    }
}

/* }}} */
/* {{{ Independent deep clone (in the t_pool) */

static void *t_ig_clone(const iop_struct_t *st, const void *v);
static void t_ig_clone_into(const iop_struct_t *st, void *v);

static void t_ig_clone_elem(const iop_field_t *f, void *p)
{
    if (f->type == IOP_T_VOID) {
        return;
    }
    if (ig_is_agg(f)) {
        if (ig_ptr(f)) {
            *(void **)p = t_ig_clone(f->u1.st_desc, *(void **)p);
        } else {
            t_ig_clone_into(f->u1.st_desc, p);
        }
    } else
    if (ig_is_str(f)) {
        lstr_t *s = p;
        char *d = t_new_raw(char, s->len + 1);

        memcpy(d, s->s ?: "", s->len);
        d[s->len] = '\0';
        *s = LSTR_INIT_V(d, s->len);
    }
}

static void t_ig_clone_into(const iop_struct_t *st, void *v)
{
    if (st->is_union) {
        int tag = iop_union_get_tag(st, v);

        for (int i = 0; i < st->fields_len; i++) {
            if (st->fields[i].tag == tag) {
                t_ig_clone_elem(&st->fields[i],
                                (byte *)v + st->fields[i].data_offs);
            }
        }
        return;
    }
    for (const iop_struct_t *s = st; s;
         s = iop_struct_is_class(s) ? s->class_attrs->parent : NULL)
    {
        for (int i = 0; i < s->fields_len; i++) {
            const iop_field_t *f = &s->fields[i];
            byte *p = (byte *)v + f->data_offs;
            size_t esz = ig_esize(f);

            switch (f->repeat) {
              case IOP_R_REQUIRED:
              case IOP_R_DEFVAL:
                t_ig_clone_elem(f, p);
                break;
              case IOP_R_OPTIONAL:
                if (ig_is_agg(f) ? *(void **)p != NULL
                                 : ig_is_str(f) && ((lstr_t *)p)->s)
                {
                    t_ig_clone_elem(f, p);
                }
                break;
              case IOP_R_REPEATED: {
                iop_array_i8_t *a = (void *)p;
                byte *tab = mp_new(t_pool(), byte, MAX(1, a->len * esz));

                if (a->len) {
                    memcpy(tab, a->tab, a->len * esz);
                }
                a->tab = (void *)tab;
                for (int k = 0; k < a->len; k++) {
                    t_ig_clone_elem(f, tab + k * esz);
                }
              } break;
            }
        }
    }
}

static void *t_ig_clone(const iop_struct_t *st, const void *v)
{
    void *n;

    if (iop_struct_is_class(st)) {
        st = *(const iop_struct_t **)v;
    }
    n = mp_new(t_pool(), char, MAX(1, st->size));
    memcpy(n, v, st->size);
    t_ig_clone_into(st, n);
    return n;
}

/* }}} */

static inline ig_t ig_any(void)
{
    return (ig_t){ .fuel = 1 + hk_below(hk_chance(1, 10) ? 120 : 25),
                   .maxrep = hk_chance(1, 4) ? 300 : 12,
                   .opt_num = 1 + hk_below(7) };
}

/* a type which can be instantiated; classes included */
static inline const iop_struct_t *ig_pick_type(void)
{
    static int depth[IG_MAX];   /* 0: unknown, 1: bad, 2: good */

    for (;;) {
        int i;

        if (hk_chance(1, 4)) {
            /* mostly the types made for this */
            do {
                i = hk_below(ig_nall_g);
            } while (strncmp(ig_all_g[i]->fullname.s, "vt.", 3));
        } else {
            i = hk_below(ig_nall_g);
        }
        if (!depth[i]) {
            depth[i] = ig_min_depth(ig_all_g[i], 12) < 12 ? 2 : 1;
        }
        if (depth[i] == 2) {
            return ig_all_g[i];
        }
    }
}

static inline const iop_struct_t *ig_real(const iop_struct_t *st,
                                          const void *v)
{
    return iop_struct_is_class(st) ? *(const iop_struct_t **)v : st;
}

#endif
