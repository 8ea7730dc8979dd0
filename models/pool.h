/* Contract of the string pool (decided on libmsi/string.c by P02): ids and
 * texts are in bijection, adding finds or creates the text and counts uses. */
#ifndef VH_POOL_H
#define VH_POOL_H
#include "libmsi.h"
#include "libmsi/msipriv.h"
#ifndef VH_POOL
#define VH_POOL 16
#endif
static const char *vh_text[VH_POOL];
static unsigned vh_next = VH_POOL - 1, vh_uses_p[VH_POOL], vh_uses_n[VH_POOL];
const char *msi_string_lookup_id(const string_table *st, unsigned id)
{
    if (!id) return "";
    return id < VH_POOL ? vh_text[id] : NULL;
}
static bool vh_same(const char *a, const char *b)
{
    unsigned i;
    for (i = 0; i < 12; i++) {
        if (a[i] != b[i]) return false;
        if (!a[i]) return true;
    }
    CHECK(0, "BOUND: text");
    return false;
}
unsigned _libmsi_id_from_string_utf8(const string_table *st, const char *s, unsigned *id)
{
    unsigned i;
    if (!s[0]) { *id = 0; return LIBMSI_RESULT_SUCCESS; }
    for (i = 1; i < VH_POOL; i++)
        if (vh_text[i] && vh_same(vh_text[i], s)) { *id = i; return LIBMSI_RESULT_SUCCESS; }
    return LIBMSI_RESULT_INVALID_PARAMETER;
}
int _libmsi_add_string(string_table *st, const char *s, int len, uint16_t rc, enum StringPersistence p)
{
    unsigned id;
    if (!s || !s[0]) return 0;
    if (_libmsi_id_from_string_utf8(st, s, &id) != LIBMSI_RESULT_SUCCESS) {
        id = vh_next;
        CHECK(!vh_text[id], "BOUND: one new text");
        vh_text[id] = s;
    }
    if (p == StringPersistent) vh_uses_p[id] += rc; else vh_uses_n[id] += rc;
    return id;
}
#endif
