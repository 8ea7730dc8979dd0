/* Summary information: libmsi-summary-info.c. */
#include "vh.h"
#if !defined(VH_NATIVE) && !defined(U_ROUND)
#define VH_KNOWN_STRLEN
#endif
#define VH_NO_MODEL_ALLOC
#include "models/glib.h"
static GObject the_db;
#ifdef VH_NATIVE
static void vh_keep(void) { }
#endif
#include "libmsi/libmsi-summary-info.c"

#ifndef VH_NATIVE
void g_free(gpointer p) { free(p); }
gpointer g_malloc(gsize n) { return malloc(n); }
gpointer g_malloc0(gsize n) { return calloc(n, 1); }
gpointer g_try_malloc(gsize n) { return n ? malloc(n) : NULL; }
#else
void g_free(gpointer p) { free(p); }
gpointer g_malloc(gsize n) { return malloc(n ? n : 1); }
gpointer g_malloc0(gsize n) { return calloc(n ? n : 1, 1); }
gpointer g_try_malloc(gsize n) { return n ? malloc(n) : NULL; }
#endif

#ifdef U_LAYOUT
static void look(uint8_t *);
#endif
/* the stream: the bytes given, or the bytes last written */
static uint8_t *stm_data;
static size_t stm_size;
static unsigned written;
static GObject stm;
gsf_off_t gsf_input_size(GsfInput *i) { return stm_size; }
guint8 const *gsf_input_read(GsfInput *i, size_t n, guint8 *buf)
{
    CHECK(n <= stm_size, "no more than the stream is read");
#ifndef U_HEADER /* there, the bytes are arbitrary */
    memcpy(buf, stm_data, n);
#endif
    return buf;
}
unsigned write_raw_stream_data(LibmsiDatabase *db, const char *name, const void *data, unsigned sz, GsfInput **o)
{
    CHECK(db == (LibmsiDatabase *)&the_db, "it is written to the database");
    CHECK(!strcmp(name, "\5SummaryInformation"), "it is written to its stream");
    stm_size = sz;
#ifdef U_LAYOUT
    look((uint8_t *)data);
#else
    stm_data = malloc(sz);
    memcpy(stm_data, data, sz);
#endif
    written++;
    stm.ref_count = 1;
    *o = (GsfInput *)&stm;
    return LIBMSI_RESULT_SUCCESS;
}

/* the kind of value each property holds: [MS-OLEPS] and the Windows Installer documentation */
static enum LibmsiOLEVariantType type_of(unsigned id)
{
    switch (id) {
    case 1: return OLEVT_I2;
    case 2: case 3: case 4: case 5: case 6: case 7: case 8: case 9: case 18: return OLEVT_LPSTR;
    case 10: case 11: case 12: case 13: return OLEVT_FILETIME;
    case 14: case 15: case 16: case 19: return OLEVT_I4;
    }
    return OLEVT_EMPTY;
}

#ifdef U_TYPE
/* get_type: every identifier has the type it is defined to have */
void vh_main(void)
{
    unsigned id = nd_u32();
    CHECK(get_type(id) == type_of(id), "each property has its type");
    REACH("si type");
}
#endif

static unsigned ld(const uint8_t *d) { return d[0] | d[1] << 8 | d[2] << 16 | (unsigned)d[3] << 24; }
#ifndef MAXTEXT
#ifdef VH_NATIVE
#define MAXTEXT 40
#define MAXOFF 60
#else
#define MAXTEXT 0x0fffffff
#define MAXOFF 0x0fffffff
#endif
#endif
#ifdef U_WRITE
/* write_property_to_data: the size and the bytes of a property of any value:
 * its type, then the number, the time, or the length of the text with its NUL
 * and the text */
void vh_main(void)
{
    LibmsiOLEVariant p = { 0 };
    unsigned n = nd_range(0, MAXTEXT), w = 0, sz, k;
    uint8_t *img;

    p.vt = VT;
    if (VT == 30) {
        p.strval = malloc(n + 1);
#ifdef VH_NATIVE
        for (k = 0; k < n; k++) p.strval[k] = 'a' + k % 26;
#endif
        p.strval[n] = 0;
        w = nd_u32();
        ASSUME(w <= n);
        VH_KNOWN(p.strval, n);
    } else if (VT == 64) p.filetime = nd_u64();
    else p.intval = nd_int();

    sz = write_property_to_data(&p, NULL);
    CHECK(sz == (VT == 30 ? 8 + (n + 1 + 3) / 4 * 4 : VT == 64 ? 12 : 8), "a property takes whole words, no more than it needs");
    img = malloc(sz);
    CHECK(write_property_to_data(&p, img) == sz, "a property takes the size that was reckoned");
    CHECK(ld(img) == VT, "its type comes first");
    if (VT == 30) {
        CHECK(ld(img + 4) == n + 1, "the length of the text counts its NUL");
        CHECK(img[8 + w] == (uint8_t)p.strval[w], "the text is written");
    } else if (VT == 64) CHECK(ld(img + 4) == (uint32_t)p.filetime && ld(img + 8) == p.filetime >> 32, "the time is written");
    else CHECK(ld(img + 4) == (uint32_t)p.intval, "the number is written");
    if (n < 16) REACH("si write");
}
#endif
#if !defined(VH_NATIVE) && !defined(U_ROUND)
/* contract of parse_filetime: some time, or the value is left as it was */
void vh_parse_filetime(const char *str, guint64 *ft) { if (nd_bool()) *ft = nd_u64(); }
int atoi(const char *s) { return nd_int(); }
#endif
#ifdef U_READ
/* read_properties_from_data: an entry with any identifier, anywhere in a
 * section of any size and contents, replaces the property of that identifier
 * by the value those bytes encode */
void vh_main(void)
{
    LibmsiOLEVariant out[MSI_MAX_PROPS];
    unsigned sz = nd_range(16, MAXOFF), off = nd_range(0, MAXOFF), id = nd_range(0, MSI_MAX_PROPS - 1), w = nd_u32(), len, k;
    uint8_t *img = malloc(sz);
#ifdef VH_NATIVE
    for (k = 0; k < sz; k++) img[k] = nd_u8();
    write_dword(img, 8, id); write_dword(img, 12, off);
    if (off <= sz - 8) { write_dword(img, off, VT); if (VT == 30 && nd_bool()) write_dword(img, off + 4, nd_range(0, sz)); }
#endif
    ASSUME(ld(img + 8) == id && ld(img + 12) == off);
    ASSUME(type_of(id) == VT);
    ASSUME(off <= sz - 8 && ld(img + off) == VT);
    len = ld(img + off + 4);
    if (VT == 30) ASSUME(len >= 1 && len <= sz - off - 8 && w < len - 1);
    if (VT == 64) ASSUME(off <= sz - 12);
    for (k = 0; k < MSI_MAX_PROPS; k++) out[k].vt = OLEVT_EMPTY;
    read_properties_from_data(out, img, sz, 1);
    for (k = 0; k < MSI_MAX_PROPS; k++) CHECK(out[k].vt == (k == id ? VT : OLEVT_EMPTY), "this property alone is read, with its type");
    if (VT == 30) {
        CHECK((uint8_t)out[id].strval[w] == img[off + 8 + w] && out[id].strval[len - 1] == 0, "the text is read as it was written");
    } else if (VT == 64) CHECK(out[id].filetime == (ld(img + off + 4) | (uint64_t)ld(img + off + 8) << 32), "the time is read as it was written");
    else CHECK((uint32_t)out[id].intval == len, "the number is read as it was written");
    if (sz < 64) REACH("si read");
}
#endif
#ifdef U_LAYOUT
#ifndef MAXW
#define MAXW 0x3ffff
#endif
/* suminfo_persist with any set of properties, each of any size (the contract
 * of write_property_to_data that U_PROP establishes: the same size each time,
 * whole words, and nothing outside that size is written) */
static LibmsiSummaryInfo si;
static unsigned psz[MSI_MAX_PROPS], ppos[MSI_MAX_PROPS], nput[MSI_MAX_PROPS];
static bool there[MSI_MAX_PROPS];
static unsigned words[14 + 2 * MSI_MAX_PROPS];
static unsigned cnt, total, place[MSI_MAX_PROPS], rank[MSI_MAX_PROPS];
/* contract of write_dword (see U_WRITE): the word is put there, in room it has */
unsigned vh_dword(uint8_t *data, unsigned ofs, unsigned val)
{
    CHECK(data != NULL && ofs % 4 == 0 && ofs / 4 < 14 + 2 * MSI_MAX_PROPS && __CPROVER_w_ok(data + ofs, 4), "a word has room");
    words[ofs / 4] = val;
    return 4;
}
unsigned vh_put(const LibmsiOLEVariant *prop, uint8_t *data)
{
    unsigned i = prop - si.property;
    if (prop->vt == OLEVT_EMPTY) return 0;
    if (data) {
        ppos[i] = __CPROVER_POINTER_OFFSET(data);
        CHECK(ppos[i] == 48 + place[i], "it comes after the entries and the properties before it");
        ASSUME(ppos[i] == 48 + place[i]);
        nput[i]++;
        CHECK(__CPROVER_w_ok(data, psz[i]), "the property has room");
    }
    return psz[i];
}
void vh_main(void)
{
    unsigned i, n = 0, r;
    for (i = 0; i < MSI_MAX_PROPS; i++) {
        si.property[i].vt = nd_bool() ? type_of(i) : OLEVT_EMPTY;
        there[i] = si.property[i].vt != OLEVT_EMPTY;
        psz[i] = 4 * nd_range(2, MAXW);
        rank[i] = n;
        n += there[i];
    }
    /* one after the other, in the order of their numbers, after the entries */
    total = 8 + 8 * n;
    for (i = 0; i < MSI_MAX_PROPS; i++) { place[i] = total; if (there[i]) total += psz[i]; }
    total += 48;
    cnt = n;
    r = suminfo_persist(&si, (LibmsiDatabase *)&the_db);
    CHECK(r == LIBMSI_RESULT_SUCCESS, "it is written");
    CHECK(written == 1 && stm_size == total, "the stream has the size of its contents");
    REACH("si layout");
}
static void look(uint8_t *stm_data)
{
    unsigned i, n = cnt, a;
    CHECK(stm_data[0] == 0xfe && stm_data[1] == 0xff, "it is marked as little-endian");
    i = nd_range(0, 15);
    CHECK(stm_data[28 + i] == fmtid_SummaryInformation[i], "it has the identifier of the format");
    CHECK(words[6] == 1 && words[11] == 48, "it has one section, after the header");
    CHECK(words[12] == total - 48 && words[13] == n, "the section has its size and count");
    /* the entry of any property that is there */
    a = nd_range(0, MSI_MAX_PROPS - 1); ASSUME(there[a]);
    CHECK(words[14 + 2 * rank[a]] == a, "its entry names it");
    CHECK(nput[a] == 1, "it is written once");
    CHECK(words[15 + 2 * rank[a]] == ppos[a] - 48, "its entry has its place");
}
#endif
#ifdef U_ENTRY
/* read_properties_from_data: one entry of any contents in a section of any
 * size and contents: nothing outside the section is read, and the property
 * that is there afterwards has its type */
void vh_main(void)
{
    LibmsiOLEVariant out[MSI_MAX_PROPS];
    unsigned sz = nd_range(16, MAXOFF), k;
    uint8_t *img = malloc(sz);
#ifdef VH_NATIVE
    for (k = 0; k < sz; k++) img[k] = nd_u8();
    write_dword(img, 8, nd_range(0, MSI_MAX_PROPS)); write_dword(img, 12, nd_u32());
    if (ld(img + 12) <= sz - 8) { write_dword(img, ld(img + 12), type_of(ld(img + 8))); write_dword(img, ld(img + 12) + 4, nd_u32()); }
#endif
    ASSUME(img != NULL);
    for (k = 0; k < MSI_MAX_PROPS; k++) out[k].vt = OLEVT_EMPTY;
    read_properties_from_data(out, img, sz, 1);
    for (k = 0; k < MSI_MAX_PROPS; k++) CHECK(out[k].vt == OLEVT_EMPTY || k == ld(img + 8) && out[k].vt == type_of(k), "a property has its type");
    if (sz < 64) REACH("si entry");
}
#endif
#ifdef U_HEADER
/* load_summary_info on a stream of any size and contents: nothing outside it
 * is read, and what read_properties_from_data is given is there */
static LibmsiSummaryInfo si;
void vh_section(LibmsiOLEVariant *prop, const uint8_t *data, unsigned sz, uint32_t c)
{
    CHECK(prop == si.property, "the properties are read into this object");
    CHECK(sz >= 8 && c <= MSI_MAX_PROPS && 8 + 8 * c <= sz, "the entries are in the section");
    CHECK(__CPROVER_r_ok(data, sz), "the section is in the stream");
    REACH("si header");
}
void vh_main(void)
{
    stm_size = nd_range(0, MAXOFF);
    stm_data = malloc(stm_size);
    load_summary_info(&si, (GsfInput *)&stm);
    CHECK(1, "end");
}
#endif
#ifdef U_API
GQuark libmsi_result_error_quark(void) { return 1; }
/* setting and getting properties of any identifier and value on an object in
 * any state whose properties have their types */
static LibmsiSummaryInfo si;
static LibmsiOLEVariant was[MSI_MAX_PROPS];
static char *mk_text(unsigned n)
{
    char *s = malloc(n + 1);
    unsigned k;
    for (k = 0; k < n; k++) { s[k] = nd_u8(); ASSUME(s[k]); }
    s[n] = 0;
    return s;
}
void vh_main(void)
{
    unsigned k, id = nd_range(0, MSI_MAX_PROPS + 2), probe = nd_range(0, MSI_MAX_PROPS - 1), count;
    char *v = mk_text(NT);
    int iv = nd_int();
    guint64 fv = nd_u64();
    bool ok, want;
    GError *err = NULL;
    enum LibmsiOLEVariantType t = id < MSI_MAX_PROPS ? type_of(id) : OLEVT_EMPTY;
    for (k = 0; k < MSI_MAX_PROPS; k++) {
        was[k].vt = nd_bool() ? type_of(k) : OLEVT_EMPTY;
        if (was[k].vt == OLEVT_LPSTR) was[k].strval = mk_text(1);
        else if (was[k].vt == OLEVT_FILETIME) was[k].filetime = nd_u64();
        else was[k].intval = nd_int();
        si.property[k] = was[k];
    }
    ((GObject *)&si)->ref_count = 1;
    si.update_count = count = nd_u32();
    if (SET == 1) ok = libmsi_summary_info_set_int(&si, id, iv, &err);
    else if (SET == 2) ok = libmsi_summary_info_set_filetime(&si, id, fv, &err);
    else ok = libmsi_summary_info_set_string(&si, id, v, &err);
    want = (SET == 1 ? t == OLEVT_I2 || t == OLEVT_I4 : SET == 2 ? t == OLEVT_FILETIME : t == OLEVT_LPSTR);
    if (want && was[id].vt == OLEVT_EMPTY && !count) want = false;
    CHECK(ok == want, "a property is set to a value of its type, if a change is allowed");
    CHECK(ok ? err == NULL : err != NULL, "a failure is reported, and only a failure");
    CHECK(si.update_count == count - (ok && was[id].vt == OLEVT_EMPTY), "a new property uses one change");
    CHECK(((GObject *)&si)->ref_count == 1, "references are balanced");
    if (!ok || probe != id) {
        CHECK(si.property[probe].vt == was[probe].vt, "other properties keep their types");
        if (was[probe].vt == OLEVT_LPSTR) CHECK(si.property[probe].strval == was[probe].strval, "other texts are kept");
        else if (was[probe].vt == OLEVT_FILETIME) CHECK(si.property[probe].filetime == was[probe].filetime, "other times are kept");
        else if (was[probe].vt != OLEVT_EMPTY) CHECK(si.property[probe].intval == was[probe].intval, "other numbers are kept");
    }
    if (ok) {
        const char *g = libmsi_summary_info_get_string(&si, id, NULL);
        int gi = libmsi_summary_info_get_int(&si, id, NULL);
        guint64 gf = libmsi_summary_info_get_filetime(&si, id, NULL);
        CHECK(gi == (SET == 1 ? iv : -1), "a number is returned as it was set; of another type there is none");
        CHECK(gf == (SET == 2 ? fv : 0), "a time is returned as it was set; of another type there is none");
        if (SET == 3) {
            CHECK(g != NULL && g != v, "the text is a copy");
            for (k = 0; k <= NT; k++) CHECK(g[k] == v[k], "a text is returned as it was set");
        } else CHECK(g == NULL, "of another type there is no text");
        CHECK(libmsi_summary_info_get_property_type(&si, id, NULL) == (SET == 1 ? LIBMSI_PROPERTY_TYPE_INT : SET == 2 ? LIBMSI_PROPERTY_TYPE_FILETIME : LIBMSI_PROPERTY_TYPE_STRING), "the type is told");
    }
    REACH("si api");
}
#endif
#ifndef VH_NATIVE
int main(void) { vh_main(); return 0; }
#endif
