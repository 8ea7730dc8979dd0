"""mkseed.mk(id, prop, file, [(old,new)...], needs, breaks, demo_c=None, demo_sh=None)"""
import os, subprocess, json, tempfile, shutil
SEED = '/verif/seeded'
LIB = r'''#include <libmsi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define DIE(...) do { printf(__VA_ARGS__); printf(" (line %d)\n", __LINE__); exit(1); } while (0)
static LibmsiDatabase *db_new(const char *f) { LibmsiDatabase *d = libmsi_database_new(f, LIBMSI_DB_FLAGS_CREATE, NULL, NULL); if (!d) DIE("new"); return d; }
static LibmsiDatabase *db_open(const char *f) { LibmsiDatabase *d = libmsi_database_new(f, LIBMSI_DB_FLAGS_READONLY, NULL, NULL); if (!d) DIE("open"); return d; }
static LibmsiDatabase *db_rw(const char *f) { LibmsiDatabase *d = libmsi_database_new(f, LIBMSI_DB_FLAGS_TRANSACT, NULL, NULL); if (!d) DIE("open"); return d; }
static int try_sqlr(LibmsiDatabase *d, const char *s, LibmsiRecord *r)
{
    LibmsiQuery *q = libmsi_query_new(d, s, NULL); int ok;
    if (!q) return 0;
    ok = libmsi_query_execute(q, r, NULL);
    libmsi_query_close(q, NULL); g_object_unref(q);
    return ok;
}
static int try_sql(LibmsiDatabase *d, const char *s) { return try_sqlr(d, s, NULL); }
static void sql(LibmsiDatabase *d, const char *s) { if (!try_sql(d, s)) DIE("failed: %s", s); }
static void commit(LibmsiDatabase *d) { if (!libmsi_database_commit(d, NULL)) DIE("commit"); }
/* all rows as text: fields joined with |, rows with newline */
static char *rows(LibmsiDatabase *d, const char *s, LibmsiRecord *p)
{
    GString *g = g_string_new(NULL);
    LibmsiQuery *q = libmsi_query_new(d, s, NULL);
    LibmsiRecord *r;
    if (!q || !libmsi_query_execute(q, p, NULL)) return g_strdup("ERROR");
    while ((r = libmsi_query_fetch(q, NULL))) {
        int i, n = libmsi_record_get_field_count(r);
        for (i = 1; i <= n; i++) {
            char *t = libmsi_record_get_string(r, i);
            g_string_append_printf(g, "%s%s", i > 1 ? "|" : "", t ? t : "(null)");
        }
        g_string_append(g, "\n");
        g_object_unref(r);
    }
    libmsi_query_close(q, NULL); g_object_unref(q);
    return g_string_free(g, FALSE);
}
static void expect(LibmsiDatabase *d, const char *s, const char *want)
{
    char *got = rows(d, s, NULL);
    if (strcmp(got, want)) DIE("%s gives <<%s>> instead of <<%s>>", s, got, want);
}
'''
SH = r'''#!/bin/bash
# exit 0 if the property holds for this case, 1 if it is broken
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -o "$T/demo" "$H/demo.c" -I"$H" -I/repo/include -I/repo/_build/include $(pkg-config --cflags gio-2.0 libgsf-1) \
  /repo/_build/libmsi/libmsi-1.0.so $(pkg-config --libs gio-2.0 libgsf-1) -Wl,-rpath,/repo/_build/libmsi || exit 2
cd "$T" && LC_ALL=C.UTF-8 timeout 120 ./demo
'''


def mk(id, prop, file, subs, needs, breaks, c=None, sh=None):
    d = os.path.join(SEED, id)
    os.makedirs(d, exist_ok=True)
    if isinstance(file, str):
        files = {file: subs}
    else:
        files = file
    diff = ''
    for f, ss in files.items():
        with open('/repo/' + f) as h:
            a = h.read()
        b = a
        for old, new in ss:
            assert b.count(old) == 1, (id, f, b.count(old), old)
            b = b.replace(old, new)
        with tempfile.TemporaryDirectory() as t:
            for n, x in (('a', a), ('b', b)):
                p = os.path.join(t, n, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(x)
            diff += subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + f, 'b/' + f], cwd=t,
                                   capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    if c is not None:
        open(d + '/demo_lib.h', 'w').write(LIB)
        open(d + '/demo.c', 'w').write('#include "demo_lib.h"\n' + c)
        open(d + '/demo.sh', 'w').write(SH)
    else:
        open(d + '/demo.sh', 'w').write(sh)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
