/* C43: binary record files. */
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <lib-common/log.h>
#include <lib-common/file-bin.h>
#include "hk.h"

static __attr_printf__(2, 0)
void no_log(const log_ctx_t *ctx, const char *fmt, va_list va)
{
}

/* {{{ model: the documented layout, written independently */

typedef struct rec_t {
    byte    *data;
    uint32_t len;
    size_t   hdr_off;     /* offset of its length field                */
    size_t   end;         /* offset after its last byte                */
} rec_t;

#define MAX_RECS  400

typedef struct model_t {
    int      version;
    uint32_t slot;
    rec_t    recs[MAX_RECS];
    int      nb;
    byte    *file;        /* expected bytes of the file */
    size_t   len;
    size_t   cap;
    /* what each byte of the file is: 'H'eader 'S'lot hdr 'L'en 'D'ata 'P'ad */
    char    *kind;
} model_t;

static void mo_init(model_t *m, int version, uint32_t slot)
{
    (memset)(m, 0, sizeof(*m));
    m->version = version;
    m->slot = slot;
}

static void mo_wipe(model_t *m)
{
    for (int i = 0; i < m->nb; i++) {
        (free)(m->recs[i].data);
    }
    (free)(m->file);
    (free)(m->kind);
}

static void mo_byte(model_t *m, int c, char kind)
{
    if (m->len == m->cap) {
        m->cap = m->cap ? m->cap * 2 : 4096;
        m->file = (realloc)(m->file, m->cap);
        m->kind = (realloc)(m->kind, m->cap);
    }
    m->file[m->len] = c;
    m->kind[m->len++] = kind;
}

static void mo_le32(model_t *m, uint32_t v, char kind)
{
    for (int i = 0; i < 4; i++) {
        mo_byte(m, (v >> (8 * i)) & 0xff, kind);
    }
}

/* Number of bytes the payload takes, starting at `pos` inside a slot */
static size_t mo_next(const model_t *m, size_t pos, size_t payload,
                      size_t *end)
{
    while (payload) {
        size_t room;

        if (pos % m->slot == 0 || pos == 20) {
            pos += 4;
        }
        room = m->slot - pos % m->slot;
        if (payload < room) {
            room = payload;
        }
        payload -= room;
        pos += room;
    }
    *end = pos;
    if (pos % m->slot == 0) {
        return pos + 4;
    }
    if (m->slot - pos % m->slot < 4) {
        return pos + (m->slot - pos % m->slot) + 4;
    }
    return pos;
}

static void mo_add(model_t *m, const byte *data, uint32_t len)
{
    rec_t *r = &m->recs[m->nb++];

    r->data = hk_exact(data, len);
    r->len = len;

    if (m->version == 0) {
        size_t room = m->slot - m->len % m->slot;

        if (m->len % m->slot && room < len + 4) {
            while (m->len % m->slot) {
                mo_byte(m, 0, 'P');
            }
        }
        r->hdr_off = m->len;
        mo_le32(m, len, 'L');
        for (uint32_t i = 0; i < len; i++) {
            mo_byte(m, data[i], 'D');
        }
        r->end = m->len;
        return;
    }

    if (m->len == 0) {
        for (int i = 0; i < 16; i++) {
            mo_byte(m, "IS_binary/v01.0\0"[i], 'H');
        }
        mo_le32(m, m->slot, 'H');
    }
    if (m->slot - m->len % m->slot < 4) {
        while (m->len % m->slot) {
            mo_byte(m, 0, 'P');
        }
    }
    {
        size_t end;
        size_t next = mo_next(m, m->len, (size_t)len + 4, &end);

        if (m->len % m->slot == 0 || m->len == 20) {
            mo_le32(m, 0, 'S');
        }
        r->hdr_off = m->len;
        mo_le32(m, len, 'L');
        for (uint32_t i = 0; i < len; i++) {
            if (m->len % m->slot == 0) {
                mo_le32(m, next - (m->len + 4), 'S');
            }
            mo_byte(m, data[i], 'D');
        }
        r->end = m->len;
        if (r->end != end) {
            hk_error("layout model is inconsistent");
        }
    }
}

static void mo_cut(model_t *m, int nb)
{
    for (int i = nb; i < m->nb; i++) {
        (free)(m->recs[i].data);
    }
    m->nb = nb;
    m->len = nb ? m->recs[nb - 1].end : 0;
}

/* }}} */
/* {{{ helpers */

static char path_g[PATH_MAX];

static lstr_t fpath(const char *name)
{
    (snprintf)(path_g, sizeof(path_g), "%s/%s", hk_scratch_g, name);
    return LSTR(path_g);
}

static int nb_maps(void)
{
    FILE *f = (fopen)("/proc/self/maps", "r");
    char line[4096];
    int res = 0;

    while (f && fgets(line, sizeof(line), f)) {
        if (strstr(line, hk_scratch_g)) {
            res++;
        }
    }
    if (f) {
        (fclose)(f);
    }
    return res;
}

static void put_file(const char *name, const byte *data, size_t len)
{
    int fd = (open)(fpath(name).s, O_CREAT | O_TRUNC | O_WRONLY, 0600);

    if (fd < 0 || (len && (write)(fd, data, len) != (ssize_t)len)) {
        hk_error("cannot write %s", path_g);
    }
    (close)(fd);
}

static byte *get_file(const char *name, size_t *len)
{
    int fd = (open)(fpath(name).s, O_RDONLY);
    struct stat st;
    byte *res;

    if (fd < 0 || fstat(fd, &st) < 0) {
        hk_error("cannot read %s", path_g);
    }
    *len = st.st_size;
    res = (malloc)(*len ?: 1);
    if ((read)(fd, res, *len) != (ssize_t)*len) {
        hk_error("cannot read %s", path_g);
    }
    (close)(fd);
    return res;
}

static uint32_t rec_len(uint32_t slot, int avg)
{
    switch (hk_below(8)) {
      case 0: return 0;
      case 1: return hk_below(4 * slot);
      case 2: return hk_below(slot);
      case 3: {
        /* ends close to the end of a slot */
        int64_t l = (int64_t)slot * (1 + hk_below(3)) - hk_below(24);

        return MAX(l, 0);
      }
      default: return hk_below(avg);
    }
}

static uint32_t gen_slot(void)
{
    switch (hk_below(4)) {
      case 0:  return 28 + hk_below(8);
      case 1:  return 28 + hk_below(40);
      case 2:  return 28 + hk_below(400);
      default: return 4096 >> hk_below(4);
    }
}

static byte rbuf_g[1 << 16];

static void gen_rec(model_t *m, uint32_t len)
{
    if (len > sizeof(rbuf_g)) {
        len = sizeof(rbuf_g);
    }
    if (hk_chance(1, 4)) {
        /* data looking like small integers: dangerous when out of sync */
        for (uint32_t i = 0; i < len; i++) {
            rbuf_g[i] = (i % 4 == 0) ? hk_below(30) : 0;
        }
    } else {
        hk_fill(rbuf_g, len);
    }
    mo_add(m, rbuf_g, len);
}

static void check_rec(const model_t *m, int i, lstr_t got, const char *how)
{
    HK_CHECK(got.s && i < m->nb, "record-invented",
             "%s: record %d of %d", how, i, m->nb);
    hk_check_mem("record-contents", how, got.s, got.len, m->recs[i].data,
                 m->recs[i].len);
}

/* records returned must come from the mapping or from the record buffer */
static void check_inside(const file_bin_t *f, lstr_t r)
{
    const byte *p = (const byte *)r.s;

    HK_CHECK(r.len >= 0, "record-negative-len", "%d", r.len);
    if (r.len == 0) {
        return;
    }
    if (p >= f->map && p < f->map + f->length) {
        HK_CHECK((size_t)r.len <= (size_t)(f->map + f->length - p),
                 "record-out-of-file", "record of %d bytes at %zd of %zu",
                 r.len, (size_t)(p - f->map), (size_t)f->length);
    } else {
        HK_CHECK(p == (const byte *)f->record_buf.data
              && r.len <= f->record_buf.len,
                 "record-out-of-buffer", "record of %d bytes", r.len);
    }
}

/* }}} */
/* {{{ rw: writing, appending, truncating, reading both ways */

static void check_reader(const model_t *m, file_bin_t *f, int nb,
                         const char *how)
{
    lstr_t r;
    int i = 0;

    file_bin_for_each_entry(f, e) {
        check_inside(f, e);
        check_rec(m, i, e, how);
        HK_CHECK(i < nb, "record-not-written",
                 "%s: record %d of %d", how, i, nb);
        i++;
    }
    HK_CHECK(i == nb, "record-lost", "%s: %d records out of %d (slot %u, "
             "%u bytes)", how, i, nb, m->slot, (unsigned)f->length);
    r = file_bin_get_next_record(f);
    HK_CHECK(!r.s, "record-after-end", "%s", how);
}

static void check_backward(const model_t *m, file_bin_t *f, int nb)
{
    t_scope;
    qv_t(lstr) out;
    int count = hk_chance(1, 4) ? -1
              : hk_chance(1, 3) ? MAX_RECS + 1 : (int)(1 + hk_below(nb + 2));
    int want = count < 0 || count > nb ? nb : count;
    off_t cur = f->cur;

    t_qv_init(&out, hk_chance(1, 2) ? 0 : MAX_RECS + 10);
    HK_CHECK(t_file_bin_get_last_records(f, count, &out) >= 0,
             "last-failed", "count %d", count);
    HK_CHECK(f->cur == cur, "last-moved", "%jd to %jd", (intmax_t)cur,
             (intmax_t)f->cur);
    for (int i = 0; i < out.len && i < want; i++) {
        check_rec(m, nb - 1 - i, out.tab[i], "backward");
    }
    HK_CHECK(out.len == want, "last-count", "%d records instead of %d "
             "(count %d of %d, slot %u)", out.len, want, count, nb, m->slot);
    hk_count("records-read-backward", out.len);
}

static void sc_rw(void)
{
    model_t m;
    uint32_t slot = gen_slot();
    file_bin_t *f = NULL;
    int nb = 1 + hk_below(hk_chance(1, 4) ? 60 : 12);
    int avg = 1 + hk_below(hk_chance(1, 2) ? 20 : 2 * slot);
    byte *got;
    size_t got_len;
    bool first = true;
    uint64_t h = slot;

    mo_init(&m, 1, slot);
    if (hk_chance(1, 2)) {
        /* an old file, which has to disappear */
        put_file("f", (const byte *)"some old contents, long enough", 30);
        f = file_bin_create(fpath("f"), slot, true);
        HK_CHECK(f, "create", "slot %u", slot);
        first = false;
    } else {
        IGNORE((unlink)(fpath("f").s));
    }
    while (m.nb < nb) {
        if (!f) {
            /* the slot size of an existing file comes from the file */
            f = file_bin_create(fpath("f"), first || !m.len ? slot
                                            : 28 + hk_below(100), false);
            HK_CHECK(f, "append", "slot %u", slot);
            first = false;
        }
        switch (hk_below(12)) {
          case 0:
            HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");
            HK_CHECK(!f, "close-null", "not reset");
            break;
          case 1:
            HK_CHECK(file_bin_flush(f) >= 0, "flush", "%m");
            break;
          case 2:
            if (m.nb && hk_chance(1, 3)) {
                int keep = 1 + hk_below(m.nb);

                HK_CHECK(file_bin_truncate(f, m.recs[keep - 1].end) >= 0,
                         "truncate", "%m");
                mo_cut(&m, keep);
                hk_count("truncations", 1);
            }
            break;
          default:
            gen_rec(&m, rec_len(slot, avg));
            h = hk_mix(h, m.recs[m.nb - 1].len);
            HK_CHECK(file_bin_put_record(f, m.recs[m.nb - 1].data,
                                         m.recs[m.nb - 1].len) >= 0,
                     "put", "%m");
            break;
        }
    }
    if (f) {
        HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");
    }

    got = get_file("f", &got_len);
    hk_check_mem("layout", "file bytes", got, got_len, m.file, m.len);
    (free)(got);

    f = file_bin_open(fpath("f"));
    HK_CHECK(f, "open", "%m");
    HK_CHECK(f->version == 1 && f->slot_size == slot, "header",
             "version %u slot %u", f->version, f->slot_size);
    if (hk_chance(1, 3)) {
        check_backward(&m, f, m.nb);
    }
    check_reader(&m, f, m.nb, "forward");
    check_backward(&m, f, m.nb);

    /* seeking to any record or slot start */
    for (int k = 0; k < 4; k++) {
        int i = hk_below(m.nb);
        size_t pos = m.recs[i].hdr_off;

        if (hk_chance(1, 2)) {
            pos -= pos % slot;
            if (pos == 0) {
                pos = 20;
            }
            for (i = 0; i < m.nb && m.recs[i].hdr_off < pos; i++) {
            }
        }
        HK_CHECK(_file_bin_seek(f, pos) >= 0, "seek", "%zu", pos);
        if (i < m.nb) {
            check_rec(&m, i, file_bin_get_next_record(f), "after a seek");
        }
    }
    HK_CHECK(file_bin_refresh(f) >= 0, "refresh", "unchanged file");
    HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");
    HK_CHECK(nb_maps() == 0, "map-leak", "%d", nb_maps());
    hk_count("records-written", m.nb);
    hk_distinct(h);
    mo_wipe(&m);
}

/* }}} */
/* {{{ cut: truncation at every byte, reading while the file grows */

static void gen_file(model_t *m, int version)
{
    uint32_t slot = version ? gen_slot() : FILE_BIN_DEFAULT_SLOT_SIZE;
    int nb = 1 + hk_below(hk_chance(1, 4) ? 30 : 8);
    int avg = 1 + hk_below(hk_chance(1, 2) ? 20 : 3 * slot);

    mo_init(m, version, slot);
    while (m->nb < nb) {
        uint32_t len = rec_len(slot, avg);

        if (version == 0) {
            len = hk_chance(1, 20) ? hk_below(65000) : 1 + hk_below(100);
            len = MAX(len, 1);
        }
        gen_rec(m, len);
        if (m->len > 40000 && version) {
            break;
        }
    }
}

static int nb_whole(const model_t *m, size_t len)
{
    int i;

    for (i = 0; i < m->nb && m->recs[i].end <= len; i++) {
    }
    return i;
}

static void sc_cut(void)
{
    model_t m;
    size_t step;

    gen_file(&m, 1);
    step = 1 + m.len / 300;
    for (size_t l = 0; l <= m.len; l += 1 + hk_below(step)) {
        file_bin_t *f;

        put_file("c", m.file, l);
        f = file_bin_open(fpath("c"));
        if (l > 0 && l < 20) {
            HK_CHECK(!f, "open-no-header", "%zu bytes", l);
            continue;
        }
        HK_CHECK(f, "open-cut", "%zu bytes of %zu", l, m.len);
        check_reader(&m, f, nb_whole(&m, l), "cut file");
        if (nb_whole(&m, l) && l < 3000) {
            check_backward(&m, f, nb_whole(&m, l));
        }
        HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");
        hk_count("cut-points", 1);
        hk_distinct(hk_mix(hk_hash(m.file, m.len < 200 ? m.len : 200, 1), l));
    }
    HK_CHECK(nb_maps() == 0, "map-leak", "%d", nb_maps());
    mo_wipe(&m);
}

static void sc_tail(void)
{
    model_t m;
    size_t l = 0;
    size_t maxstep;
    int fd;
    int i = 0;
    file_bin_t *f;

    gen_file(&m, 1);
    maxstep = 1 + hk_below(hk_chance(1, 2) ? 12 : m.len);
    if (hk_chance(1, 2)) {
        l = hk_below(MIN(m.len, 60));
        if (l < 20) {
            l = 0;
        }
    }
    put_file("t", m.file, l);
    f = file_bin_open(fpath("t"));
    HK_CHECK(f, "open", "%zu bytes", l);
    fd = (open)(fpath("t").s, O_WRONLY | O_APPEND);
    while (l < m.len) {
        size_t n = 1 + hk_below(maxstep);

        n = MIN(n, m.len - l);
        if ((write)(fd, m.file + l, n) != (ssize_t)n) {
            hk_error("cannot append");
        }
        l += n;
        if (file_bin_refresh(f) < 0) {
            HK_CHECK(l < 20, "refresh", "%zu bytes", l);
            hk_count("refresh-without-header", 1);
            continue;
        }
        while (true) {
            lstr_t r = file_bin_get_next_record(f);

            if (!r.s) {
                break;
            }
            check_inside(f, r);
            check_rec(&m, i, r, "growing file");
            HK_CHECK(i < nb_whole(&m, l), "record-not-written",
                     "record %d at length %zu", i, l);
            i++;
        }
        HK_CHECK(i == nb_whole(&m, l), "growing-lost",
                 "%d records read, %d written, length %zu, slot %u", i,
                 nb_whole(&m, l), l, m.slot);
        hk_count("refreshes", 1);
    }
    HK_CHECK(nb_maps() == 1, "map-leak", "%d", nb_maps());
    HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");
    HK_CHECK(nb_maps() == 0, "map-leak", "%d", nb_maps());
    (close)(fd);
    hk_distinct(hk_mix(hk_hash(m.file, m.len < 200 ? m.len : 200, 1),
                       maxstep));
    mo_wipe(&m);
}

/* }}} */
/* {{{ v0: files of the first version */

static void sc_v0(void)
{
    model_t m;
    file_bin_t *f;
    int nb;

    mo_init(&m, 0, FILE_BIN_DEFAULT_SLOT_SIZE);
    nb = 1 + hk_below(8);
    while (m.nb < nb || m.len < 24) {
        gen_rec(&m, hk_chance(1, 3) ? 1 + hk_below(sizeof(rbuf_g))
                                    : 1 + hk_below(60));
    }
    put_file("z", m.file, m.len);
    if (hk_chance(1, 2)) {
        nb = m.nb + (hk_chance(1, 2) ? hk_below(6) : hk_below(60));
        f = file_bin_create(fpath("z"), gen_slot(), false);
        HK_CHECK(f, "append-v0", "%zu bytes", m.len);
        while (m.nb < nb) {
            gen_rec(&m, hk_chance(1, 2) ? 1 + hk_below(sizeof(rbuf_g))
                                        : 1 + hk_below(60));
            HK_CHECK(file_bin_put_record(f, m.recs[m.nb - 1].data,
                                         m.recs[m.nb - 1].len) >= 0,
                     "put", "%m");
        }
        HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");
    }
    f = file_bin_open(fpath("z"));
    HK_CHECK(f && f->version == 0, "open-v0", "%zu bytes", m.len);
    check_reader(&m, f, m.nb, "v0");
    check_backward(&m, f, m.nb);
    HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");

    for (int k = 0; k < 20; k++) {
        size_t l = 20 + hk_below(m.len - 20 + 1);

        put_file("z", m.file, l);
        f = file_bin_open(fpath("z"));
        HK_CHECK(f, "open-v0", "%zu bytes", l);
        check_reader(&m, f, nb_whole(&m, l), "v0 cut");
        HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");
    }
    hk_count("v0-slots", 1 + m.len / m.slot);
    hk_distinct(hk_hash(m.file, m.len, 0));
    mo_wipe(&m);
}

/* }}} */
/* {{{ damage */

/* Whatever the bytes: terminates, stays inside */
static void read_hostile(const char *name, size_t len)
{
    file_bin_t *f = file_bin_open(fpath(name));
    size_t nb = 0;

    if (!f) {
        return;
    }
    file_bin_for_each_entry(f, e) {
        check_inside(f, e);
        if (e.len) {
            hk_hash(e.s, e.len, 0);     /* reads every byte */
        }
        nb++;
        HK_CHECK(nb <= len, "endless", "%zu records in %zu bytes", nb, len);
    }
    hk_count("hostile-records", nb);
    {
        t_scope;
        qv_t(lstr) out;

        t_qv_init(&out, 0);
        IGNORE(t_file_bin_get_last_records(f, 1 + hk_below(30), &out));
        tab_for_each_entry(e, &out) {
            if (e.len) {
                hk_hash(e.s, e.len, 0);
            }
        }
    }
    for (int k = 0; k < 3; k++) {
        if (_file_bin_seek(f, hk_below(len + 1)) >= 0) {
            lstr_t e = file_bin_get_next_record(f);

            if (e.s) {
                check_inside(f, e);
            }
        }
    }
    HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");
}

static void sc_hostile(void)
{
    model_t m;
    byte *d;
    size_t len;

    if (hk_chance(1, 30)) {
        /* several slots of the old version */
        mo_init(&m, 0, FILE_BIN_DEFAULT_SLOT_SIZE);
        while (m.len < FILE_BIN_DEFAULT_SLOT_SIZE + 100000) {
            gen_rec(&m, 1 + hk_below(sizeof(rbuf_g)));
        }
    } else {
        gen_file(&m, hk_chance(5, 6));
        while (m.len < 20) {
            gen_rec(&m, 20);
        }
    }
    for (int it = 0; it < (m.len > 100000 ? 3 : 12); it++) {
        int nb = 1 + hk_below(6);

        d = hk_exact(m.file, m.len);
        len = m.len;
        if (hk_chance(1, 4)) {
            len = 20 + hk_below(len - 20 + 1);
        }
        if (hk_chance(1, 6)) {
            /* the end of the file is the end of a page */
            d = (realloc)(d, (len + 4095) & ~4095UL);
            for (; len % 4096; len++) {
                d[len] = hk_chance(1, 2) ? 0 : hk_rand();
            }
        }
        while (nb-- > 0) {
            size_t pos = hk_below(len);
            uint32_t v = hk_chance(1, 2) ? hk_u64_edgy() : hk_below(2 * len);

            if (hk_chance(1, 10)) {
                pos = hk_chance(1, 2) ? 16 : hk_below(24);
            } else if (hk_chance(3, 4)) {
                /* aim at the headers */
                for (int k = 0; k < 2000 && pos < m.len
                  && m.kind[pos] == 'D'; k++)
                {
                    pos = hk_chance(1, 50) ? hk_below(len) : (pos + 1) % len;
                }
                for (; pos > 0 && pos < m.len && pos - 1 >= 20
                  && m.kind[pos - 1] == m.kind[pos]
                  && m.kind[pos] != 'D' && m.kind[pos] != 'P'; pos--)
                {
                }
            }
            if (hk_chance(1, 3) || pos + 4 > len) {
                d[pos] = hk_chance(1, 3) ? 0 : hk_rand();
            } else {
                if (hk_chance(1, 3)) {
                    v = 0U - v;
                }
                if (pos == 16 && hk_chance(1, 2)) {
                    v = hk_below(40);
                }
                for (int i = 0; i < 4; i++) {
                    d[pos + i] = v >> (8 * i);
                }
            }
        }
        put_file("h", d, len);
        hk_trace("file of %zu bytes, slot %u", len, m.slot);
        read_hostile("h", len);
        hk_distinct(hk_hash(d, MIN(len, 5000), 0));
        (free)(d);
    }
    HK_CHECK(nb_maps() == 0, "map-leak", "%d", nb_maps());
    mo_wipe(&m);
}

/* Damage inside one slot, after its header: what comes before it is intact,
 * and so is what starts at least two slots after it. */
static void sc_damage(void)
{
    model_t m;

    gen_file(&m, 1);
    for (int it = 0; it < 12; it++) {
        byte *d = hk_exact(m.file, m.len);
        size_t slot_pos = hk_below(m.len / m.slot + 1) * m.slot;
        size_t lo = slot_pos ? slot_pos + 4 : 24;
        size_t hi = MIN(slot_pos + m.slot, m.len);
        bool data_only = hk_chance(1, 3);
        int nb = 1 + hk_below(4);
        size_t first = SIZE_MAX;
        size_t n = 0;
        size_t cap = 64;
        lstr_t *recs = (malloc)(cap * sizeof(lstr_t));
        file_bin_t *f;
        int before;
        int after;

        if (lo >= hi) {
            (free)(d);
            (free)(recs);
            continue;
        }
        while (nb-- > 0) {
            size_t pos = lo + hk_below(hi - lo);

            if (data_only && m.kind[pos] != 'D') {
                continue;
            }
            if (!data_only && hk_chance(1, 2)) {
                while (pos > lo && m.kind[pos] != 'L') {
                    pos--;
                }
            }
            d[pos] = hk_chance(1, 3) ? d[pos] ^ (1 << hk_below(8))
                   : hk_chance(1, 2) ? hk_rand() : hk_below(40);
            first = MIN(first, pos);
        }
        put_file("d", d, m.len);
        f = file_bin_open(fpath("d"));
        HK_CHECK(f, "open", "%m");
        file_bin_for_each_entry(f, e) {
            check_inside(f, e);
            if (n == cap) {
                cap *= 2;
                recs = (realloc)(recs, cap * sizeof(lstr_t));
            }
            recs[n++] = LSTR_DATA_V(hk_exact(e.s, e.len), e.len);
            HK_CHECK(n <= m.len, "endless", "%zu records", n);
        }
        HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");

        before = nb_whole(&m, first == SIZE_MAX ? m.len : first);
        for (int i = 0; i < before; i++) {
            HK_CHECK((size_t)i < n, "damage-prefix-lost",
                     "%zu records, %d before the damage", n, before);
            check_rec(&m, i, recs[i], "before the damage");
        }
        if (data_only) {
            HK_CHECK(n == (size_t)m.nb, "damage-data",
                     "%zu records instead of %d", n, m.nb);
            for (int i = 0; i < m.nb; i++) {
                HK_CHECK((uint32_t)recs[i].len == m.recs[i].len,
                         "damage-data-len", "record %d", i);
                if (m.recs[i].hdr_off > hi) {
                    check_rec(&m, i, recs[i], "after the damage");
                }
            }
        }
        for (after = m.nb; after > 0 && m.recs[after - 1].hdr_off
             >= slot_pos + 2 * (size_t)m.slot; after--)
        {
        }
        HK_CHECK((size_t)(m.nb - after) <= n, "damage-suffix-lost",
                 "%zu records, %d after the damage", n, m.nb - after);
        for (int i = after; i < m.nb; i++) {
            check_rec(&m, i, recs[n - m.nb + i],
                      "at least two slots after the damage");
            hk_count("records-after-damage", 1);
        }
        for (size_t i = 0; i < n; i++) {
            (free)(recs[i].v);
        }
        hk_distinct(hk_hash(d, MIN(m.len, 5000), 0));
        (free)(recs);
        (free)(d);
    }
    HK_CHECK(nb_maps() == 0, "map-leak", "%d", nb_maps());
    mo_wipe(&m);
}

/* }}} */
/* {{{ big: offsets over 4 GB (sparse file) */

static void sc_big(void)
{
    uint32_t slot = 0xfff00000U + hk_below(1000);
    uint32_t big = 0x55000000U + hk_below(1000);
    uint64_t pos = 24;
    uint64_t len;
    file_bin_t *f;
    byte hdr[24] = "IS_binary/v01.0";
    byte b4[4];
    byte *data;
    uint32_t left;
    uint32_t tot;
    lstr_t r;
    int fd;

#define PUT32(dst, v)                                                        \
    do {                                                                     \
        for (int i_ = 0; i_ < 4; i_++) {                                     \
            (dst)[i_] = (uint32_t)(v) >> (8 * i_);                           \
        }                                                                    \
    } while (0)

    PUT32(hdr + 16, slot);
    fd = (open)(fpath("big").s, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0 || (pwrite)(fd, hdr, 24, 0) != 24) {
        hk_error("cannot write");
    }
    for (int i = 0; i < 3; i++) {
        uint32_t l = big;

        if (i == 2) {
            /* leave a few bytes before the end of the slot */
            l = slot - pos - 4 - 4 - hk_below(50);
        }
        PUT32(b4, l);
        IGNORE((pwrite)(fd, b4, 4, pos));
        IGNORE((pwrite)(fd, "x", 1, pos + 4 + l - 1));
        pos += 4 + (uint64_t)l;
    }
    /* a record over the slot limit */
    left = slot - pos - 4;
    tot = left + 1 + hk_below(200);
    data = (byte *)hk_bytes(tot);
    PUT32(b4, tot);
    IGNORE((pwrite)(fd, b4, 4, pos));
    IGNORE((pwrite)(fd, data, left, pos + 4));
    PUT32(b4, tot - left);
    IGNORE((pwrite)(fd, b4, 4, slot));
    IGNORE((pwrite)(fd, data + left, tot - left, slot + 4ULL));
    pos = slot + 4ULL + tot - left;
    /* a big one again, crossing 4 GB, then a small one */
    {
        uint32_t l = 0x100000 + hk_below(3000);

        PUT32(b4, l);
        IGNORE((pwrite)(fd, b4, 4, pos));
        pos += 4 + (uint64_t)l;
    }
    PUT32(b4, 5);
    IGNORE((pwrite)(fd, b4, 4, pos));
    IGNORE((pwrite)(fd, "hello", 5, pos + 4));
    len = pos + 9;
    (close)(fd);

    f = file_bin_open(fpath("big"));
    HK_CHECK(f, "big-open", "%m");
    HK_CHECK(file_bin_refresh(f) >= 0, "big-refresh", "unchanged file");
    for (int i = 0; i < 3; i++) {
        r = file_bin_get_next_record(f);
        HK_CHECK(r.s && (i == 2 || (uint32_t)r.len == big), "big-record",
                 "record %d: %d bytes", i, r.len);
    }
    r = file_bin_get_next_record(f);
    hk_check_mem("big-span", "record over the limit of a slot", r.s, r.len,
                 data, tot);
    r = file_bin_get_next_record(f);
    HK_CHECK(r.s && r.len >= 0x100000, "big-record",
             "record 4: %d bytes", r.len);
    r = file_bin_get_next_record(f);
    hk_check_mem("big-last", "last record", r.s, r.len, "hello", 5);
    r = file_bin_get_next_record(f);
    HK_CHECK(!r.s && file_bin_is_finished(f), "big-end", "%jd of %ju",
             (intmax_t)f->cur, (uintmax_t)len);
    HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");

    /* and going on writing in it */
    f = file_bin_create(fpath("big"), 0, false);
    HK_CHECK(f, "big-append", "%m");
    HK_CHECK(file_bin_put_record(f, data, tot) >= 0, "put", "%m");
    HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");
    f = file_bin_open(fpath("big"));
    HK_CHECK(f, "big-open", "%m");
    HK_CHECK(_file_bin_seek(f, len) >= 0, "big-seek", "%ju",
             (uintmax_t)len);
    r = file_bin_get_next_record(f);
    hk_check_mem("big-appended", "appended record", r.s, r.len, data, tot);
    HK_CHECK(file_bin_close(&f) >= 0, "close", "%m");
    HK_CHECK(nb_maps() == 0, "map-leak", "%d", nb_maps());
    (unlink)(fpath("big").s);
    (free)(data);
    hk_distinct(hk_mix(slot, tot));
}

/* }}} */

int main(int argc, char **argv)
{
    static hk_scenario_t const scs[] = {
        { "rw",      sc_rw,      3500, 60000 },
        { "cut",     sc_cut,     140,  4000 },
        { "tail",    sc_tail,    700, 15000 },
        { "v0",      sc_v0,      120,  2000 },
        { "hostile", sc_hostile, 1800, 40000 },
        { "damage",  sc_damage,  1500, 30000 },
        { "big",     sc_big,     6,    40 },
    };

    log_set_handler(&no_log);
    return hk_main(argc, argv, scs, countof(scs));
}
