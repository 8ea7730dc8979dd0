/* Real record code over an assumed GObject construction contract:
 * g_object_new(type, "count", n, NULL) sets the property, then calls
 * constructed(). */
#ifndef VH_RECORD_H
#define VH_RECORD_H
#include "libmsi.h"
#include "libmsi/msipriv.h"
static LibmsiRecord *vh_record_new(unsigned count);
#define g_object_new(t, n, c, z) ((gpointer)vh_record_new(c))
#if !defined(VH_NATIVE) && defined(VH_SHORT_TEXT)
/* texts are shorter than VH_SHORT_TEXT bytes: constant size copies */
static char *vh_strdup(const char *s)
{
    char *r = malloc(VH_SHORT_TEXT);
    unsigned i;
    if (!s) return NULL;
    for (i = 0; i < VH_SHORT_TEXT; i++) {
        r[i] = s[i];
        if (!s[i]) return r;
    }
    __CPROVER_assert(0, "BOUND: text");
    return r;
}
#undef strdup
#define strdup(s) vh_strdup(s)
#endif
#include "libmsi/libmsi-record.c"
#undef strdup
#undef g_object_new
static LibmsiRecord *vh_record_new(unsigned count)
{
    static GObjectClass parent;
    LibmsiRecord *r = calloc(1, sizeof *r);
    libmsi_record_parent_class = &parent;
    r->parent.ref_count = 1;
    r->count = count;
    libmsi_record_constructed((GObject *)r);
#if !defined(VH_NATIVE) && defined(VH_RECORDS)
    {   /* fields live in static objects: their unions keep constants */
        static LibmsiField pool[VH_RECORDS][VH_FIELDS];
        static unsigned n;
        unsigned i;
        __CPROVER_assert(count < VH_FIELDS, "BOUND: records");
        free(r->fields);
        r->fields = pool[n++ % VH_RECORDS];        /* reused in turn */
        for (i = 0; i < VH_FIELDS; i++) { r->fields[i].type = 0; }
    }
#endif
    return r;
}
#endif
