/* Records: the field operations of libmsi-record.c on records of NF + 1 fields
 * of arbitrary kinds and values. */
#define VH_SHORT_TEXT 16
#define VH_CHECK_REFS
#include "vh.h"
#include "models/glib.h"
#include "libmsi.h"
#include "libmsi/msipriv.h"
#include "models/record.h"
#define STR_(x) #x
#define STR(x) STR_(x)
#ifndef PFX
#define PFX
#endif
#ifndef NF
#define NF 2
#endif
#ifndef OP
#define OP 0
#endif
#ifndef VH_NATIVE
int vsprintf_dummy;
#endif
/* a field as the user sees it */
struct mf { unsigned type; int i; char s[4]; GsfInput *st; };
static GObject dups[2 * NF + 4];
static GsfInput *dup_of(GsfInput *s);
GsfInput *gsf_input_dup(GsfInput *s, GError **e)
{
    GObject *o = (GObject *)dup_of(s);
    CHECK(((GObject *)s)->ref_count > 0, "a live stream");
    o->ref_count = 1;
    return (GsfInput *)o;
}
static GObject streams[2 * NF + 4];
static unsigned nstreams;
static GsfInput *dup_of(GsfInput *s) { return (GsfInput *)&dups[(GObject *)s - streams]; }
static GsfInput *mk_stream(void)
{
    GObject *o = &streams[nstreams++];
    o->ref_count = 1;
    return (GsfInput *)o;
}
static void mk_text(char *s)
{
    unsigned n = nd_range(0, 3), i;
    for (i = 0; i < 3; i++) { s[i] = i < n ? (char)nd_u8() : 0; ASSUME(i >= n || s[i] != 0); }
    s[3] = 0;
}
static unsigned mk_kind(unsigned k)
{
    return k == 0 ? LIBMSI_FIELD_TYPE_NULL : k == 1 ? LIBMSI_FIELD_TYPE_INT : k == 2 ? LIBMSI_FIELD_TYPE_STR : LIBMSI_FIELD_TYPE_STREAM;
}
static char *dup4(const char *s)
{
    char *r = malloc(4);
    memcpy(r, s, 4);
    return r;
}
/* a record in an arbitrary state; the kinds of its fields are the digits of KIND in base 4 */
static LibmsiRecord *mk_record(struct mf *m, unsigned kind)
{
    LibmsiRecord *r = libmsi_record_new(NF);
    unsigned i;
    for (i = 0; i <= NF; i++, kind /= 4) {
        memset(&m[i], 0, sizeof m[i]);
        m[i].type = mk_kind(kind % 4);
        r->fields[i].type = m[i].type;
        if (m[i].type == LIBMSI_FIELD_TYPE_INT) r->fields[i].u.iVal = m[i].i = nd_int();
        else if (m[i].type == LIBMSI_FIELD_TYPE_STR) { mk_text(m[i].s); r->fields[i].u.szVal = dup4(m[i].s); }
        else if (m[i].type == LIBMSI_FIELD_TYPE_STREAM) r->fields[i].u.stream = m[i].st = mk_stream();
    }
    return r;
}
static void check_field(const LibmsiRecord *r, unsigned i, const struct mf *m, const char *dummy)
{
    CHECK(r->fields[i].type == m->type, "the field is of its kind");
    if (m->type == LIBMSI_FIELD_TYPE_INT) {
        CHECK(r->fields[i].u.iVal == m->i, "it has its integer");
        CHECK(libmsi_record_get_int(r, i) == m->i, "an integer is read as it was set");
        CHECK(!_libmsi_record_get_string_raw(r, i), "it is no text");
    } else if (m->type == LIBMSI_FIELD_TYPE_STR) {
        const char *p = _libmsi_record_get_string_raw(r, i);
        unsigned k;
        CHECK(p, "it has its text");
        for (k = 0; k < 4; k++) { CHECK(p[k] == m->s[k], "a text is read as it was set"); if (!p[k]) break; }
    } else if (m->type == LIBMSI_FIELD_TYPE_STREAM) {
        GsfInput *in = NULL;
        CHECK(r->fields[i].u.stream == m->st, "it has its stream");
        CHECK(!_libmsi_record_get_gsf_input(r, i, &in) && in == m->st, "a stream is returned as it was set");
        g_object_unref(in);
    }
    CHECK(libmsi_record_is_null(r, i) == (m->type == LIBMSI_FIELD_TYPE_NULL), "a field is null exactly if it has no value");
}
static unsigned refs(const GsfInput *s) { return ((const GObject *)s)->ref_count; }

void vh_main(void)
{
    struct mf m[NF + 1], m2[NF + 1];
    LibmsiRecord *r = mk_record(m, KIND), *r2;
    unsigned i, f = FIELD, before = 0, ok;
    GsfInput *old = f <= NF ? m[f].st : NULL;
    CHECK(libmsi_record_get_field_count(r) == NF, "the record has the number of fields asked for");
#if OP == 1         /* set an integer */
    int v = nd_int();
    ok = libmsi_record_set_int(r, f, v);
    if (f <= NF) { m[f].type = LIBMSI_FIELD_TYPE_INT; m[f].i = v; }
#elif OP == 2       /* set a text */
    char t[4];
    mk_text(t);
    ok = libmsi_record_set_string(r, f, nd_bool() ? t : (t[0] = 0, (char *)NULL));
    if (f <= NF) { m[f].type = t[0] ? LIBMSI_FIELD_TYPE_STR : LIBMSI_FIELD_TYPE_NULL; memcpy(m[f].s, t, 4); }
    t[0] = 'x';     /* the record has its own copy */
#elif OP == 3       /* set a stream */
    GsfInput *s = mk_stream();
    ok = _libmsi_record_set_gsf_input(r, f, s) == LIBMSI_RESULT_SUCCESS;
    CHECK(refs(s) == (f <= NF ? 2 : 1), "the record has its own reference");
    if (f <= NF) { m[f].type = LIBMSI_FIELD_TYPE_STREAM; m[f].st = s; }
#elif OP == 4       /* give it a stream */
    GsfInput *s = mk_stream();
    ok = _libmsi_record_load_stream(r, f, s) == LIBMSI_RESULT_SUCCESS;
    CHECK(refs(s) == 1, "the record takes the reference over");
    if (f && f <= NF) { m[f].type = LIBMSI_FIELD_TYPE_STREAM; m[f].st = s; }
#elif OP == 5       /* clear */
    ok = libmsi_record_clear(r);
    for (i = 0; i <= NF; i++) {
        if (m[i].st) CHECK(refs(m[i].st) == 0, "streams are released");
        m[i].type = LIBMSI_FIELD_TYPE_NULL;
    }
    old = NULL;
    CHECK(libmsi_record_get_field_count(r) == NF, "the number of fields stays");
#elif OP == 6       /* copy a field of another record */
    r2 = mk_record(m2, KIND2);
    ok = _libmsi_record_copy_field(r2, FROM, r, f) == LIBMSI_RESULT_SUCCESS;
    for (i = 0; i <= NF; i++) check_field(r2, i, &m2[i], "");
    if (FROM <= NF && f <= NF) {
        if (m2[FROM].st) CHECK(refs(m2[FROM].st) == 2, "each record has a reference of its own");
        if (m2[FROM].type == LIBMSI_FIELD_TYPE_STR) CHECK(r->fields[f].u.szVal != r2->fields[FROM].u.szVal, "each record has a text of its own");
        m[f] = m2[FROM];
    }
#elif OP == 7       /* copy within the record */
    ok = _libmsi_record_copy_field(r, FROM, r, f) == LIBMSI_RESULT_SUCCESS;
    if (FROM <= NF && f <= NF) m[f] = m[FROM];
    if (FROM == f) old = NULL;
#elif OP == 8       /* clone and compare */
    r2 = _libmsi_record_clone(r);
    CHECK(r2 && libmsi_record_get_field_count(r2) == NF, "the clone has as many fields");
    bool any = false;
    for (i = 0; i <= NF; i++) {
        if (m[i].st) {
            CHECK(r2->fields[i].type == LIBMSI_FIELD_TYPE_STREAM && r2->fields[i].u.stream == dup_of(m[i].st), "a stream has a duplicate");
            any = true;
        } else check_field(r2, i, &m[i], "");
        CHECK(m[i].type != LIBMSI_FIELD_TYPE_STR || r2->fields[i].u.szVal != r->fields[i].u.szVal, "with texts of its own");
    }
    CHECK(any || _libmsi_record_compare(r, r2), "and is equal");
    CHECK(libmsi_record_set_int(r2, f, 7), "changing the clone");
    ok = 1;
    old = NULL;
#elif OP == 9       /* comparison of two records */
    r2 = mk_record(m2, KIND2);
    bool eq = true;
    for (i = 0; i <= NF; i++) {
        if (m[i].type != m2[i].type) eq = false;
        else if (m[i].type == LIBMSI_FIELD_TYPE_STREAM) eq = false; /* streams are never equal */
        else if (m[i].type == LIBMSI_FIELD_TYPE_INT) eq = eq && m[i].i == m2[i].i;
        else if (m[i].type == LIBMSI_FIELD_TYPE_STR) {
            unsigned k;
            for (k = 0; k < 4; k++) { if (m[i].s[k] != m2[i].s[k]) eq = false; if (!m[i].s[k]) break; }
        }
    }
    CHECK(_libmsi_record_compare(r, r2) == eq, "records are equal exactly if all their fields are");
    ok = 1;
    old = NULL;
#elif OP == 11      /* a text as an integer */
    char *p = malloc(LEN + 1);
    static const char pfx[] = STR(PFX);
    bool num = true;
    int v = 0;
    for (i = 0; i < LEN; i++) {
        p[i] = i + 1 < sizeof pfx ? pfx[i] : nd_u8();
        ASSUME(p[i] != 0);
        if (i == 0 && p[i] == '-' && LEN > 1) continue;
        if (p[i] < '0' || p[i] > '9') num = false;
        v *= 10;
        v += p[i] - '0';
    }
    p[LEN] = 0;
    ASSUME(LEN > 1 || p[0] != '-');
    r->fields[f].type = LIBMSI_FIELD_TYPE_STR;
    r->fields[f].u.szVal = p;
    m[f].type = LIBMSI_FIELD_TYPE_STR;
    if (num) CHECK(libmsi_record_get_int(r, f) == (p[0] == '-' ? -v : v), "a text of digits is read as its number");
    else CHECK(libmsi_record_get_int(r, f) == LIBMSI_NULL_INT, "another text is no number");
    REACH("text");
    return;
#elif OP == 10      /* the text of a field, with a size */
    char buf[6];
    unsigned n = nd_range(0, 5), n0 = n, k, len = f <= NF && m[f].type == LIBMSI_FIELD_TYPE_STR ? strlen(m[f].s) : 0, rc;
    memset(buf, '#', 6);
    ASSUME(f > NF || m[f].type != LIBMSI_FIELD_TYPE_INT);
    rc = _libmsi_record_get_string(r, f, buf, &n);
    CHECK(n == len, "the length is that of the text");
    CHECK(f > NF || rc == (n0 <= len ? LIBMSI_RESULT_MORE_DATA : LIBMSI_RESULT_SUCCESS), "a text that does not fit is reported");
    for (k = n0; k < 6; k++) CHECK(buf[k] == '#', "nothing is written past the size");
    if (n0 > len) {
        for (k = 0; k < len; k++) CHECK(buf[k] == m[f].s[k], "the text is copied");
        CHECK(buf[len] == 0, "and ends there");
    }
    char *d = msi_dup_record_field(r, f);
    CHECK((d == NULL) == (f > NF || m[f].type == LIBMSI_FIELD_TYPE_NULL), "a missing value has no text");
    if (d) for (k = 0; k <= len; k++) CHECK(d[k] == (f <= NF ? m[f].s[k] : 0), "a copy of the text");
    ok = 1;
    old = NULL;
#endif
#if OP == 4
    CHECK(ok == (f && f <= NF), "a field the record does not have is refused");
#elif OP == 6 || OP == 7
    CHECK(ok == (FROM <= NF && f <= NF), "a field the record does not have is refused");
#elif OP >= 1 && OP <= 3
    CHECK(ok == (f <= NF), "a field the record does not have is refused");
#endif
#if OP == 8
    m2[0] = m[0];
#endif
    for (i = 0; i <= NF; i++) check_field(r, i, &m[i], "");
    if (old && OP != 0 && ok && !(OP == 4 && !f)) CHECK(refs(old) == 0, "the stream that was there is released once");
    for (i = 0; i <= NF; i++) if (m[i].type == LIBMSI_FIELD_TYPE_STREAM && OP == 1) CHECK(refs(m[i].st) == 1, "other streams are kept");
    for (i = NF + 1; i <= NF + 2; i++) {
        CHECK(libmsi_record_is_null(r, i) && libmsi_record_get_int(r, i) == LIBMSI_NULL_INT && !_libmsi_record_get_string_raw(r, i), "fields beyond the last have no value");
    }
    (void)before;
#if OP != 11
    REACH("end");
#endif
}
#ifndef VH_NATIVE
int main(void) { vh_main(); return 0; }
#endif
