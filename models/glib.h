/* Assumed contracts of the GLib / libgsf / libc functions the units call:
 * executable models, used by CBMC and by the native replay alike. */
#ifndef VH_GLIB_MODEL_H
#define VH_GLIB_MODEL_H
#include "vh.h"
#include <glib.h>
#include <glib-object.h>
#include <stdlib.h>
#include <string.h>

#if !defined(VH_NATIVE) && defined(VH_KNOWN_STRLEN)
/* strlen of a string whose length the harness chose (and which the
 * precondition makes free of embedded NULs) is that length: keeps the size of
 * what is allocated for it constant. */
static const char *vh_known_str;
static size_t vh_known_len;
static size_t vh_strlen(const char *s)
{
    size_t n = 0;
    if (s == vh_known_str) {
        __CPROVER_assert(s[vh_known_len] == 0, "known string is terminated");
        return vh_known_len;
    }
    while (s[n]) n++;
    return n;
}
#define strlen(s) vh_strlen(s)
#define VH_KNOWN(s, n) (vh_known_str = (s), vh_known_len = (n))
#else
#define VH_KNOWN(s, n) ((void)0)
#endif

#ifdef VH_MOVE_WORDS
/* memmove of up to VH_MOVE_WORDS unsigned words, element by element */
static void *vh_memmove(void *d, const void *s, size_t n)
{
    unsigned t[VH_MOVE_WORDS], i;
    CHECK(n % 4 == 0 && n / 4 <= VH_MOVE_WORDS, "BOUND: memmove");
    for (i = 0; i < VH_MOVE_WORDS; i++) if (i < n / 4) t[i] = ((const unsigned *)s)[i];
    for (i = 0; i < VH_MOVE_WORDS; i++) if (i < n / 4) ((unsigned *)d)[i] = t[i];
    return d;
}
#define memmove(d, s, n) vh_memmove(d, s, n)
#endif

/* number of g_critical / g_warning messages so far */
unsigned vh_critical, vh_warning;

/* Allocation of a symbolic number of bytes.  With VH_CAP, CBMC sees an object
 * of the constant size VH_CAP whose last n bytes are handed out: reading or
 * writing past the end is still an error, and no array has a symbolic size. */
static inline void *vh_alloc_bytes(size_t n, bool zero)
{
#if defined(VH_CAP) && !defined(VH_NATIVE)
    char *p = zero ? calloc(VH_CAP, 1) : malloc(VH_CAP);
    __CPROVER_assert(n <= VH_CAP, "BOUND: allocation within the stated bound");
    __CPROVER_assume(n <= VH_CAP);
    return p + (VH_CAP - n);
#else
    return zero ? calloc(n ? n : 1, 1) : malloc(n ? n : 1);
#endif
}
#if !defined(VH_NATIVE)
/* free() of a possibly end-aligned block */
static inline void vh_free(void *p)
{
    if (!p) return;
    free((char *)p - __CPROVER_POINTER_OFFSET(p));
}
static inline void *vh_calloc(size_t a, size_t b) { return vh_alloc_bytes(a * b, true); }
static inline void *vh_malloc(size_t a) { return vh_alloc_bytes(a, false); }
#else
#define vh_free(p) free(p)
#endif
#ifndef VH_NO_MODEL_ALLOC
void g_free(gpointer p) { vh_free(p); }
gpointer g_malloc(gsize n) { return vh_alloc_bytes(n, false); }
gpointer g_malloc0(gsize n) { return vh_alloc_bytes(n, true); }
gpointer g_malloc0_n(gsize n, gsize m) { return calloc(n * m ? n * m : 1, 1); }
gpointer g_try_malloc(gsize n) { return n ? malloc(n) : NULL; }
#endif
#undef g_strdup
gchar *g_strdup(const gchar *s)
{
    size_t n;
    char *r;
    if (!s) return NULL;
    n = strlen(s) + 1;
    r = malloc(n);
    memcpy(r, s, n);
    return r;
}
gchar *g_strndup(const gchar *s, gsize n)
{
    char *r;
    size_t i;
    if (!s) return NULL;
    r = malloc(n + 1);
    for (i = 0; i < n && s[i]; i++) r[i] = s[i];
    for (; i <= n; i++) r[i] = 0;
    return r;
}
void g_log(const gchar *d, GLogLevelFlags l, const gchar *f, ...)
{
    if (l & (G_LOG_LEVEL_CRITICAL | G_LOG_LEVEL_ERROR)) vh_critical++;
    else if (l & G_LOG_LEVEL_WARNING) vh_warning++;
}
void g_warn_message(const char *a, const char *b, int c, const char *d, const char *e) { vh_warning++; }
void g_return_if_fail_warning(const char *a, const char *b, const char *c) { vh_critical++; }
const char *wine_dbg_sprintf(const char *format, ...) { return ""; }

/* GObject: plain reference counts; finalizers run only where a unit supplies
 * vh_finalize */
#undef g_object_ref
gpointer g_object_ref(gpointer p) { ((GObject *)p)->ref_count++; return p; }
#ifdef VH_FINALIZE
void vh_finalize(gpointer p);
#endif
void g_object_unref(gpointer p)
{
    if (!p) { vh_critical++; return; }
#ifdef VH_CHECK_REFS
    CHECK(((GObject *)p)->ref_count > 0, "object released more often than it was acquired");
#endif
    if (--((GObject *)p)->ref_count == 0) {
#ifdef VH_FINALIZE
        vh_finalize(p);
#endif
    }
}
gboolean g_type_check_instance_is_a(GTypeInstance *i, GType t) { return i != NULL; }
GTypeInstance *g_type_check_instance_cast(GTypeInstance *i, GType t) { return i; }
gboolean (g_once_init_enter_pointer)(void *p) { return 0; }
void (g_once_init_leave_pointer)(void *p, gpointer v) { }
gboolean (g_once_init_enter)(volatile void *p) { return 0; }
void (g_once_init_leave)(volatile void *p, gsize v) { }

void g_set_error(GError **e, GQuark q, gint c, const gchar *f, ...)
{
    if (e) { *e = calloc(1, sizeof(GError)); (*e)->code = c; }
}
void g_set_error_literal(GError **e, GQuark q, gint c, const gchar *m)
{
    if (e) { *e = calloc(1, sizeof(GError)); (*e)->code = c; }
}
void g_clear_error(GError **e) { if (e && *e) { free(*e); *e = NULL; } }
void g_propagate_error(GError **d, GError *s) { if (d) *d = s; }

#if defined(VH_CAP_ALL) && !defined(VH_NATIVE) && !defined(VH_NO_MODEL_ALLOC)
static inline void *vh_realloc(void *p, size_t n)
{
    char *q = vh_alloc_bytes(n, false);
    size_t i, m;
    if (!p) return q;
    m = __CPROVER_OBJECT_SIZE(p) - __CPROVER_POINTER_OFFSET(p);
    for (i = 0; i < VH_CAP && i < m && i < n; i++) q[i] = ((char *)p)[i];
    vh_free(p);
    return q;
}
#define malloc(n) vh_malloc(n)
#define calloc(a, b) vh_calloc(a, b)
#define free(p) vh_free(p)
#define realloc(p, n) vh_realloc(p, n)
#endif
#ifdef VH_NATIVE
#else
/* C locale character classes as the ctype macros of glibc read them */
const unsigned short **__ctype_b_loc(void)
{
    static unsigned short t[384];
    static const unsigned short *p;
    static bool done;
    if (!done) {
        done = true;
        t[128 + ' '] = t[128 + '\t'] = t[128 + '\n'] = t[128 + '\f'] = t[128 + '\r'] = t[128 + '\v'] = 0x2000;
        t[128 + '0'] = t[128 + '1'] = t[128 + '2'] = t[128 + '3'] = t[128 + '4'] = 0x800;
        t[128 + '5'] = t[128 + '6'] = t[128 + '7'] = t[128 + '8'] = t[128 + '9'] = 0x800;
        p = t + 128;
    }
    return &p;
}
void *bsearch(const void *k, const void *b, size_t n, size_t sz, int (*c)(const void *, const void *))
{
    size_t l = 0, h = n;
    while (l < h) {
        size_t m = (l + h) / 2;
        const void *p = (const char *)b + m * sz;
        int r = c(k, p);
        if (r < 0) h = m;
        else if (r > 0) l = m + 1;
        else return (void *)p;
    }
    return NULL;
}
#endif
#endif
