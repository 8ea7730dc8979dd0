/* String pool: string.c */
#ifndef VN
#define VN 5
#endif
#define VH_MOVE_WORDS VN
#ifdef U_ADD
#define VH_KNOWN_STRLEN
#endif
#include "vh.h"
#include "models/glib.h"

#ifndef VN
#define VN 3          /* entries of the pool, entry 0 included */
#endif

/* --- assumed contracts: code page conversion and stream I/O -------------- */
#include "libmsi.h"
#include "libmsi/msipriv.h"
static unsigned lens[VN + 1];                 /* length of string k in the code page */
static struct { const char *at; unsigned off, len, k; } seg[VN + 1];
static unsigned nseg;
static const char *conv_out[VN + 1];
static char *saved_data; static unsigned saved_datasz; static uint8_t *saved_pool; static unsigned saved_poolsz;
static unsigned nwrites;
static bool abstract_conv;

int gsf_msole_iconv_win_codepage(void) { return 1252; }
#define CONV_IMPORT 0x1000000u
GIConv gsf_msole_iconv_open_codepage_for_export(int cp) { return (GIConv)(uintptr_t)cp; }
GIConv gsf_msole_iconv_open_for_import(int cp) { return (GIConv)(uintptr_t)(CONV_IMPORT | cp); }
gint g_iconv_close(GIConv c) { return 0; }
gchar *g_convert_with_iconv(const gchar *str, gssize len, GIConv conv, gsize *br, gsize *bw, GError **err)
{
    bool import = ((uintptr_t)conv & CONV_IMPORT) != 0;
    char *r;
    unsigned k;
    if (abstract_conv) {
        if (!import) {
            k = str[0] - 'a';
            r = malloc(2);
            r[0] = 'A' + k;
            r[1] = 0;
            conv_out[k] = r;
            *bw = lens[k];
            return r;
        }
        r = malloc(2);
        r[0] = '?';
        for (k = 0; k < VN; k++)
            if (k < nseg && saved_data + seg[k].off == str && seg[k].len == (unsigned)len) r[0] = 'a' + seg[k].k;
        r[1] = 0;
        *bw = 1;
        return r;
    }
    if (nd_bool()) {
        if (err) g_set_error(err, 0, 1, "conversion");
        return NULL;
    }
    if (len < 0) len = strlen(str);
    {
        unsigned L;
        r = NULL;
        CHECK((unsigned)len <= 3, "converted text within the data stream");
        for (L = 0; L <= 3; L++)
            if (L == (unsigned)len) {
                r = malloc(L + 1);
                for (k = 0; k < L; k++) r[k] = str[k];
                r[L] = 0;
            }
    }
    *bw = len;
    return r;
}
#ifdef U_ROUND
static void vh_copy_out(void *dst, const void *src, size_t n)
{
    unsigned k;
    for (k = 0; k < VN; k++)
        if (abstract_conv && src == conv_out[k]) {
            seg[nseg].at = dst; seg[nseg].len = n; seg[nseg].k = k;
            nseg++;
                return;
        }
    CHECK(0, "only converted strings are copied to the data stream");
}
#define memcpy(d, s, n) vh_copy_out(d, s, n)
#endif
unsigned read_stream_data(GsfInfile *stg, const char *stname, uint8_t **pdata, unsigned *psz)
{
    bool pool = stname[7] == 'P';
    if (pool) { *pdata = saved_pool; *psz = saved_poolsz; }
    else {
#ifdef U_ROUND
        saved_data = malloc(saved_datasz ? saved_datasz : 1);
        memset(saved_data, 'x', saved_datasz ? saved_datasz : 1);
#endif
        *pdata = (uint8_t *)saved_data;
        *psz = saved_datasz;
    }
    return LIBMSI_RESULT_SUCCESS;
}
unsigned write_stream_data(LibmsiDatabase *db, const char *stname, const void *data, unsigned sz)
{
    bool pool = stname[7] == 'P';
    nwrites++;
    if (pool) {
        unsigned i;
        uint16_t *w = malloc(4 * VN * sizeof(uint16_t));
        const uint8_t *d = data;
        saved_pool = (uint8_t *)w;
        saved_poolsz = sz;
        CHECK(sz <= 8 * VN && sz % 4 == 0, "at most two pool entries per string");
        for (i = 0; i < 4 * VN; i++) if (2 * i < sz) w[i] = GUINT16_TO_LE((uint16_t)(d[2 * i] | d[2 * i + 1] << 8));
    } else {
        unsigned k;
        for (k = 0; k < nseg; k++) {
            seg[k].off = (unsigned)((uintptr_t)seg[k].at - (uintptr_t)data);
            CHECK(seg[k].off + seg[k].len <= sz, "text within the data stream");
        }
        saved_datasz = sz;
    }
    return LIBMSI_RESULT_SUCCESS;
}
#undef free
#undef memcpy
#ifdef U_ROUND
#define memcpy(d, s, n) vh_copy_out(d, s, n)
#ifndef VH_NATIVE
/* text is never stored in the data stream buffer, only its place logged */
#define malloc(n) malloc((n) > 1000 ? 1 : (n))
#define msi_alloc(n) malloc(n)
#endif
#endif
#include "libmsi/string.c"
#undef malloc

/* length of a prefix all texts share */
#ifndef PFX
#define PFX 0
#endif
static string_table *mk_state(void)
{
    string_table *st = malloc(sizeof *st);
    unsigned i, k;
    st->maxcount = VN;
    st->strings = calloc(VN, sizeof *st->strings);
    st->sorted = malloc(VN * sizeof(unsigned));
    for (i = 0; i < VN; i++) st->sorted[i] = PFX ? i + 1 : nd_u32();
    st->codepage = nd_u32();
    ASSUME(validate_codepage(st->codepage));
    st->freeslot = PFX ? VN : nd_range(0, VN);
    st->sortcount = 0;
    for (i = 1; i < VN; i++)
        if (PFX || nd_bool()) {
            char *s = malloc(PFX + 3);
            for (k = 0; k < PFX; k++) s[k] = 'p';
            s[PFX] = nd_u8(); s[PFX + 1] = nd_u8(); s[PFX + 2] = 0;
            ASSUME(s[0] != 0);
            st->strings[i].str = s;
            st->strings[i].persistent_refcount = nd_u16();
            st->strings[i].nonpersistent_refcount = nd_u16();
            ASSUME(st->strings[i].persistent_refcount || st->strings[i].nonpersistent_refcount);
            st->sortcount++;
        }
    for (k = 0; k < VN; k++) {
        if (k >= st->sortcount) continue;
        ASSUME(st->sorted[k] > 0 && st->sorted[k] < VN && st->strings[st->sorted[k]].str);
        if (k > 0) ASSUME(strcmp(st->strings[st->sorted[k - 1]].str, st->strings[st->sorted[k]].str) < 0);
    }
    return st;
}
/* strings of different used ids differ: follows from sortedness + counting */
static void check_inv(const string_table *st, unsigned max)
{
    unsigned k, used = 0;
    CHECK(st->maxcount <= max, "size");
    for (k = 1; k < max; k++)
        if (k < st->maxcount && (st->strings[k].persistent_refcount || st->strings[k].nonpersistent_refcount)) {
            used++;
            CHECK(st->strings[k].str && st->strings[k].str[0], "a referenced string has text");
        }
    CHECK(used == st->sortcount, "every referenced string is indexed once");
    for (k = 0; k < max; k++) {
        if (k >= st->sortcount) continue;
        CHECK(st->sorted[k] > 0 && st->sorted[k] < st->maxcount, "index entries are valid ids");
        if (k > 0)
            CHECK(strcmp(st->strings[st->sorted[k - 1]].str, st->strings[st->sorted[k]].str) < 0, "index is strictly sorted");
    }
    CHECK(!st->strings[0].str, "id 0 is the empty string");
}

void vh_main(void)
{
#ifdef U_ADD
    string_table *st = mk_state();
    struct msistring old[VN];
    char *s = malloc(PFX + 3);
    unsigned i, id, codepage = st->codepage;
    uint16_t rc = nd_u16();
    int len = nd_bool() ? -1 : PFX + TL;
    enum StringPersistence pers = nd_bool() ? StringPersistent : StringNonPersistent;
    for (i = 0; i < VN; i++) old[i] = st->strings[i];
    for (i = 0; i < PFX; i++) s[i] = 'p';
    for (i = 0; i < TL; i++) { s[PFX + i] = nd_u8(); ASSUME(s[PFX + i] != 0); }
    s[PFX + TL] = 0;
    ASSUME(rc > 0);
    VH_KNOWN(s, PFX + TL);
    int n = _libmsi_add_string(st, s, len, rc, pers);
    CHECK(st->codepage == codepage, "adding a string leaves the code page alone");
#if TL + PFX == 0
    {
        CHECK(n == 0, "the empty string is id 0");
        REACH("empty");
    }
#else
    {
        const char *t;
        CHECK(n > 0, "an added string gets an id");
        t = msi_string_lookup_id(st, n);
        CHECK(t && !strcmp(t, s), "looking up the id of an added string gives its text");
        CHECK(_libmsi_id_from_string_utf8(st, s, &id) == LIBMSI_RESULT_SUCCESS && id == (unsigned)n,
              "looking up the text of an added string gives its id");
        struct msistring *e = &st->strings[n];
        unsigned op = n < VN ? old[n].persistent_refcount : 0, on = n < VN ? old[n].nonpersistent_refcount : 0;
        unsigned add_p = pers == StringPersistent ? rc : 0, add_n = pers == StringPersistent ? 0 : rc;
        CHECK(e->persistent_refcount == (op + add_p > 0xffff ? 0xffff : op + add_p), "persistent uses are counted, without wrapping");
        CHECK(e->nonpersistent_refcount == (on + add_n > 0xffff ? 0xffff : on + add_n), "other uses are counted, without wrapping");
        REACH("added");
    }
#endif
    for (i = 1; i < VN; i++) {
        if (!old[i].str) continue;
        if (!s[0] || i != (unsigned)n) {
            CHECK(st->strings[i].persistent_refcount == old[i].persistent_refcount &&
                  st->strings[i].nonpersistent_refcount == old[i].nonpersistent_refcount, "other counts unchanged");
            REACH("other string");
        }
        CHECK(st->strings[i].str == old[i].str, "existing ids keep their text");
    }
    check_inv(st, VN + 1 + VN / 2);
#elif defined(U_LOOK)
    string_table *st = mk_state();
    unsigned i, id;
    char *s = malloc(PFX + 3);
    for (i = 0; i < PFX; i++) s[i] = 'p';
    s[PFX] = nd_u8(); s[PFX + 1] = nd_u8(); s[PFX + 2] = 0;
    unsigned r = _libmsi_id_from_string_utf8(st, s, &id);
    bool any = false;
    for (i = 1; i < VN; i++) any = any || (st->strings[i].str && !strcmp(st->strings[i].str, s));
    CHECK((r == LIBMSI_RESULT_SUCCESS) == any, "a text is found exactly if the pool has it");
    if (r == LIBMSI_RESULT_SUCCESS) { CHECK(id < VN && id && !strcmp(msi_string_lookup_id(st, id), s), "found id has the text"); REACH("found"); }
    id = nd_u32();
    const char *t = msi_string_lookup_id(st, id);
    if (id == 0) CHECK(t && !*t, "id 0 is empty");
    else if (id >= VN || !st->strings[id].str) CHECK(!t, "an unused id has no text");
    else CHECK(t == st->strings[id].str, "a used id has its text");
    REACH("lookup");
#elif defined(U_ROUND)
    /* every combination of unused entries, entries only in use outside the
     * saved tables, and texts of the given lengths; use counts among the extremes */
    static const unsigned cls[] = { 0, 0, LENS };
    enum { NC = sizeof cls / sizeof cls[0] };
    unsigned combo, combos = 1, i, b1, b2, r, sel;
#if VN == 1
    unsigned cp = nd_u32();
    ASSUME(validate_codepage(cp));
#else
    static const unsigned cps[] = { 1252, 65001, 0, 28591, 932 };
    unsigned cp;
#endif
    abstract_conv = true;
    for (i = 1; i < VN; i++) combos *= NC;
#ifdef VH_NATIVE
    sel = nd_u32() % combos;
    for (combo = sel; combo <= sel; combo++) {
#else
    for (combo = 0; combo < combos; combo++) {
#endif
        string_table *st = malloc(sizeof *st), *st2;
        unsigned c = combo;
#if VN > 1
        cp = cps[combo % 5];
#endif
        LibmsiDatabase db;
        st->maxcount = VN; st->freeslot = 1; st->sortcount = 0; st->codepage = cp;
        st->strings = calloc(VN, sizeof *st->strings);
        st->sorted = calloc(VN, sizeof(unsigned));
        for (i = 1; i < VN; i++, c /= NC) {
            char *s;
            if (c % NC == 0) continue;
            s = malloc(2);
            s[0] = 'a' + i; s[1] = 0;
            lens[i] = cls[c % NC];
            st->strings[i].str = s;
            st->strings[i].nonpersistent_refcount = (c % NC == 1);
            st->strings[i].persistent_refcount = c % NC == 1 ? 0 : i == 1 ? 0xffff : i == 2 ? 0x100 : 1;
            st->sorted[st->sortcount++] = i;
        }
        b1 = 77; b2 = 99; nwrites = 0; nseg = 0;
        r = msi_save_string_table(st, &db, &b1);
        CHECK(r == LIBMSI_RESULT_SUCCESS, "the pool is saved");
        CHECK(nwrites == 2 && vh_critical == 0 && vh_warning == 0, "saving reports no problem");
        CHECK(b1 == 2, "two-byte references");
        st2 = msi_load_string_table(NULL, &b2);
        CHECK(st2 != NULL, "a saved pool loads");
        CHECK(vh_critical == 0 && vh_warning == 0, "loading reports no problem");
        CHECK(b2 == b1, "reference size survives");
        CHECK(st2->codepage == st->codepage, "code page survives");
        for (i = 1; i < VN; i++) {
            const char *t = msi_string_lookup_id(st2, i);
            if (st->strings[i].persistent_refcount) {
                CHECK(t && t[0] == (char)('a' + i), "a saved string keeps its id and text");
                CHECK(st2->strings[i].persistent_refcount == st->strings[i].persistent_refcount, "and its reference count");
            } else CHECK(!t, "an unused id stays unused");
        }
        if (combo == combos - 1) REACH("round trip");
    }
#elif defined(U_LOAD)
    unsigned i, b = 0, id;
    saved_poolsz = PS; saved_datasz = DS;
    saved_pool = PS ? malloc(PS) : NULL;
    saved_data = DS ? malloc(DS) : NULL;
    for (i = 0; i < PS; i++) saved_pool[i] = nd_u8();
    for (i = 0; i < DS; i++) saved_data[i] = nd_u8();
    string_table *st = msi_load_string_table(NULL, &b);
    if (st) {
        CHECK(b == 2 || b == 3, "reference size is 2 or 3 bytes");
        for (i = 0; i < PS / 4 + 1; i++) {
            const char *t = msi_string_lookup_id(st, i);
            if (t && i) {
                REACH("string");
                CHECK(strlen(t) <= DS, "terminated");
                CHECK(_libmsi_id_from_string_utf8(st, t, &id) == LIBMSI_RESULT_SUCCESS && id < st->maxcount &&
                      !strcmp(msi_string_lookup_id(st, id), t), "every loaded string is found by its text");
            }
        }
        REACH("loaded");
        msi_destroy_stringtable(st);
    }
#endif
}
#ifndef VH_NATIVE
int main(void) { vh_main(); return 0; }
#endif
