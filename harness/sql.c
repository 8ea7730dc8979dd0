/* SQL queries: tokenize.c, sql-parser.y, where.c, select.c, distinct.c,
 * update.c, insert.c, delete.c, libmsi-query.c over the contract of a table
 * (decided on table.c by P07..P09) and of the string pool (P02). */
#define VH_SHORT_TEXT 12
#include "vh.h"
#include "models/glib.h"
#include "libmsi.h"
#include "libmsi/msipriv.h"
#ifdef VH_NATIVE
#include "query.h"
#else
#include "sqlx/query.h"
#endif
#include "models/pool.h"
#include "models/record.h"
#ifndef Q
#define Q 0
#endif
#include "sql_cases.h"
#ifndef COLS
#define COLS ALLA
#endif
#ifdef KEYS
static const unsigned keys[][2] = { KEYS };
#define NKEYS (sizeof keys / sizeof keys[0])
#else
#define NKEYS 0
#endif
static const unsigned outcols[][2] = { COLS };
#define NCOLS (sizeof outcols / sizeof outcols[0])
#ifndef MAXCOLS
#define MAXCOLS NCOLS
#endif
#ifndef TABLES
#define TABLES 1
#endif

/* --- assumed contract: a table ----------------------------------------------- */
#ifndef NRA
#define NRA 2
#endif
#ifndef NRB
#define NRB 2
#endif
#define NR2 (TABLES == 2 ? NRB : 1)
#define MR 5
#define MCOL 4
struct vt { LibmsiView view; const char *name; unsigned nc, nr; unsigned type[MCOL]; const char *col[MCOL];
            unsigned val[MR][MCOL]; GsfInput *strm[MR]; bool temp[MR]; unsigned nset, nins, ndel; };
#define VS (MSITYPE_VALID | MSITYPE_STRING)
#define VI MSITYPE_VALID
#define NL MSITYPE_NULLABLE
#define KY MSITYPE_KEY
#define BIN (MSITYPE_VALID | MSITYPE_STRING | MSITYPE_NULLABLE)
static struct vt ta, tb, before_b;
static unsigned t_fetch_int(LibmsiView *v, unsigned row, unsigned col, unsigned *val)
{
    struct vt *t = (struct vt *)v;
    if (!col || col > t->nc) return LIBMSI_RESULT_INVALID_PARAMETER;
    if (row >= t->nr) return NO_MORE_ITEMS;
    *val = t->val[row][col - 1];
    return LIBMSI_RESULT_SUCCESS;
}
static unsigned t_fetch_stream(LibmsiView *v, unsigned row, unsigned col, GsfInput **s)
{
    struct vt *t = (struct vt *)v;
    unsigned x, r = t_fetch_int(v, row, col, &x);
    if (r) return r;
    if (!x) return LIBMSI_RESULT_INVALID_PARAMETER;
    g_object_ref(t->strm[row]);
    *s = t->strm[row];
    return LIBMSI_RESULT_SUCCESS;
}
static unsigned t_put(struct vt *t, unsigned row, unsigned i, LibmsiRecord *rec)
{
    unsigned ty = t->type[i];
    int n;
    if (MSITYPE_IS_BINARY(ty)) t->val[row][i] = !libmsi_record_is_null(rec, i + 1);
    else if (ty & MSITYPE_STRING) t->val[row][i] = _libmsi_add_string(NULL, _libmsi_record_get_string_raw(rec, i + 1), -1, 1, StringPersistent);
    else if (libmsi_record_is_null(rec, i + 1)) t->val[row][i] = 0;
    else {
        n = libmsi_record_get_int(rec, i + 1);
        if ((ty & 0xff) == 2 && (n < -32767 || n > 32767)) return LIBMSI_RESULT_FUNCTION_FAILED;
        t->val[row][i] = n + ((ty & 0xff) == 2 ? 0x8000u : 0x80000000u);
    }
    return LIBMSI_RESULT_SUCCESS;
}
static unsigned t_set_row(LibmsiView *v, unsigned row, LibmsiRecord *rec, unsigned mask)
{
    struct vt *t = (struct vt *)v;
    unsigned i;
    if (mask >> t->nc) return LIBMSI_RESULT_INVALID_PARAMETER;
    if (row >= t->nr) return NO_MORE_ITEMS;
    for (i = 0; i < t->nc; i++)
        if (mask & 1u << i && t_put(t, row, i, rec)) return LIBMSI_RESULT_FUNCTION_FAILED;
    t->nset++;
    return LIBMSI_RESULT_SUCCESS;
}
static unsigned t_insert_row(LibmsiView *v, LibmsiRecord *rec, unsigned row, bool temp)
{
    struct vt *t = (struct vt *)v;
    unsigned i, j;
    CHECK(t->nr < MR, "BOUND: rows");
    if (row == -1u) row = t->nr;
    for (i = t->nr; i > row; i--) {
        for (j = 0; j < t->nc; j++) t->val[i][j] = t->val[i - 1][j];
        t->temp[i] = t->temp[i - 1];
    }
    for (i = 0; i < t->nc; i++) if (t_put(t, row, i, rec)) return LIBMSI_RESULT_FUNCTION_FAILED;
    t->temp[row] = temp;
    t->nr++;
    t->nins++;
    return LIBMSI_RESULT_SUCCESS;
}
static unsigned t_delete_row(LibmsiView *v, unsigned row)
{
    struct vt *t = (struct vt *)v;
    unsigned i, j;
    if (row >= t->nr) return LIBMSI_RESULT_FUNCTION_FAILED;
    for (i = row; i + 1 < t->nr; i++)
        for (j = 0; j < t->nc; j++) t->val[i][j] = t->val[i + 1][j];
    t->nr--;
    t->ndel++;
    return LIBMSI_RESULT_SUCCESS;
}
static unsigned t_execute(LibmsiView *v, LibmsiRecord *rec) { return LIBMSI_RESULT_SUCCESS; }
static unsigned t_close(LibmsiView *v) { return LIBMSI_RESULT_SUCCESS; }
static unsigned t_get_dimensions(LibmsiView *v, unsigned *r, unsigned *c)
{
    struct vt *t = (struct vt *)v;
    if (r) *r = t->nr;
    if (c) *c = t->nc;
    return LIBMSI_RESULT_SUCCESS;
}
static unsigned t_get_column_info(LibmsiView *v, unsigned n, const char **name, unsigned *type, bool *temp, const char **table)
{
    struct vt *t = (struct vt *)v;
    if (!n || n > t->nc) return LIBMSI_RESULT_INVALID_PARAMETER;
    if (name) *name = t->col[n - 1];
    if (type) *type = t->type[n - 1];
    if (temp) *temp = false;
    if (table) *table = t->name;
    return LIBMSI_RESULT_SUCCESS;
}
static unsigned vh_deleted;
static unsigned t_delete(LibmsiView *v) { vh_deleted++; return LIBMSI_RESULT_SUCCESS; }
static const LibmsiViewOps t_ops = { t_fetch_int, t_fetch_stream, NULL, t_set_row, t_insert_row, t_delete_row, t_execute, t_close,
    t_get_dimensions, t_get_column_info, t_delete, NULL, NULL, NULL, NULL, NULL, NULL, NULL };
unsigned table_view_create(LibmsiDatabase *db, const char *name, LibmsiView **view)
{
    struct vt *t = !strcmp(name, "A") ? &ta : !strcmp(name, "B") ? &tb : NULL;
    if (!t) return LIBMSI_RESULT_INVALID_PARAMETER;
    *view = &t->view;
    return LIBMSI_RESULT_SUCCESS;
}
unsigned streams_view_create(LibmsiDatabase *db, LibmsiView **v) { return LIBMSI_RESULT_FUNCTION_FAILED; }
unsigned storages_view_create(LibmsiDatabase *db, LibmsiView **v) { return LIBMSI_RESULT_FUNCTION_FAILED; }
unsigned create_view_create(LibmsiDatabase *db, LibmsiView **view, const char *table, column_info *c, bool hold) { return LIBMSI_RESULT_FUNCTION_FAILED; }
unsigned alter_view_create(LibmsiDatabase *db, LibmsiView **view, const char *name, column_info *c, int hold) { return LIBMSI_RESULT_FUNCTION_FAILED; }
unsigned drop_view_create(LibmsiDatabase *db, LibmsiView **view, const char *name) { return LIBMSI_RESULT_FUNCTION_FAILED; }

/* --- the real code -------------------------------------------------------------- */
#define PROP_0 QPROP_0
#define PROP_DATABASE QPROP_DATABASE
#include "libmsi/libmsi-query.c"
#ifdef VH_NATIVE
#include "sql-parser.c"
#else
#include "sqlx/sql-parser.c"
#endif
#include "libmsi/tokenize.c"
#if !defined(VH_NATIVE)
/* allocations as objects of the type they hold, of exactly the size asked for;
 * the entry of the result row made of rows i and j of the tables is vh_rows[i][j] */
static unsigned *vals;      /* add_row() has a parameter of this name */
static void *vh_where_alloc(size_t n, unsigned *v), *vh_where_zero(size_t n);
#define msi_alloc(n) vh_where_alloc(n, vals)
#define msi_alloc_zero(n) vh_where_zero(n)
#define msi_realloc_zero(p, o, n) (__CPROVER_assert(0, "BOUND: 16 rows"), __CPROVER_assume(0), NULL)
static void vh_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *));
#define qsort vh_qsort
static void vh_where_free(void *p);
#define msi_free(p) vh_where_free(p)
#endif
#ifdef VH_NATIVE
#include "libmsi/where.c"
#else
#include "sqlx/where.c"
#endif
#if !defined(VH_NATIVE)
#undef msi_alloc
#undef msi_alloc_zero
#undef msi_realloc_zero
#undef msi_free
static LibmsiWhereView *vh_wv;
static LibmsiRowEntry vh_rows[NRA * NR2];
static void vh_where_free(void *p)
{
    unsigned i;
    for (i = 0; i < NRA * NR2; i++) if (p == &vh_rows[i]) return;
    free(p);
}
static void *vh_where_zero(size_t n)
{
    unsigned i;
    if (n == sizeof(LibmsiWhereView)) {
        vh_wv = calloc(1, sizeof(LibmsiWhereView));
        for (i = 0; i < NRA * NR2; i++) {
            vh_rows[i].wv = vh_wv;
            vh_rows[i].values[0] = i / (TABLES == 2 ? NRA : 1);
            if (TABLES == 2) vh_rows[i].values[TABLES - 1] = i % NRA;
        }
        return vh_wv;
    }
    return calloc(n / sizeof(void *), sizeof(void *));
}
static void *vh_where_alloc(size_t n, unsigned *v)
{
    if (n == offsetof(LibmsiRowEntry, values) + TABLES * sizeof(unsigned) && v) return &vh_rows[TABLES == 2 ? v[0] * NRA + v[1] : v[0]];
    if (n == sizeof(JOINTABLE)) return malloc(sizeof(JOINTABLE));
    if (NKEYS && n == sizeof(LibmsiOrderInfo) + (NKEYS - 1) * sizeof(struct ext_column)) return malloc(sizeof(LibmsiOrderInfo));
    if (n == 4) return malloc(sizeof(unsigned));
    if (n == 8) return malloc(2 * sizeof(unsigned));
    return malloc(n / sizeof(void *) * sizeof(void *));
}
/* --- assumed contract: libc qsort.  Every two rows are compared once. ---------- */
static void vh_qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    void **b = base, *x, *p, *q;
    unsigned i, j, k, l;
    bool gt[NRA * NR2][NRA * NR2], sw;
    CHECK(sz == sizeof(void *), "sorts pointers");
    CHECK(n <= NRA * NR2, "BOUND: rows sorted");
    for (i = 0; i < NRA * NR2; i++)
        for (j = 0; j < i; j++) {
            p = &vh_rows[i]; q = &vh_rows[j];
            gt[i][j] = cmp(&p, &q) > 0;
            gt[j][i] = cmp(&q, &p) > 0;
            CHECK(gt[i][j] != gt[j][i], "rows are in a strict order");
        }
    for (i = 1; i < NRA * NR2; i++)
        if (i < n)
            for (j = i; j > 0; j--) {
                sw = false;
                for (k = 0; k < NRA * NR2; k++)
                    for (l = 0; l < NRA * NR2; l++)
                        if (k != l && b[j - 1] == &vh_rows[k] && b[j] == &vh_rows[l]) sw = gt[k][l];
                if (sw) { x = b[j]; b[j] = b[j - 1]; b[j - 1] = x; }
            }
}
#endif
#ifdef VH_NATIVE
#include "libmsi/select.c"
#else
static void *vh_sv_alloc(size_t n);
#define msi_alloc_zero(n) vh_sv_alloc(n)
#include "sqlx/select.c"
#undef msi_alloc_zero
static void *vh_sv_alloc(size_t n)
{
    CHECK(n == sizeof(LibmsiSelectView) + MAXCOLS * sizeof(unsigned), "room for the columns");
    return calloc(1, sizeof(LibmsiSelectView));
}
#endif
#ifndef VH_NATIVE
static void *vh_ds_zero(size_t n), *vh_ds_alloc(size_t n);
#define msi_alloc_zero(n) vh_ds_zero(n)
#define msi_alloc(n) vh_ds_alloc(n)
#endif
#include "libmsi/distinct.c"
#ifndef VH_NATIVE
#undef msi_alloc_zero
#undef msi_alloc
static void *vh_ds_zero(size_t n)
{
    CHECK(n == sizeof(LibmsiDistinctView), "what is allocated");
    return calloc(1, sizeof(LibmsiDistinctView));
}
static void *vh_ds_alloc(size_t n)
{
    unsigned i;
    if (n == sizeof(LibmsiDistinctSet)) return malloc(sizeof(LibmsiDistinctSet));
    for (i = 0; i < NRA * NR2; i++) if (n == i * sizeof(unsigned)) return malloc(i * sizeof(unsigned));
    CHECK(n == NRA * NR2 * sizeof(unsigned), "room for the rows");
    return malloc(NRA * NR2 * sizeof(unsigned));
}
#endif
#include "libmsi/update.c"
#include "libmsi/insert.c"
#include "libmsi/delete.c"

enum { ID_V = 1, NV = 3 };
static LibmsiDatabase db;
static LibmsiQuery q;
static unsigned vh_int(unsigned ty)
{
    return (ty & 0xff) == 2 ? nd_range(0, 0xffff) : nd_u32();
}
static void mk_tables(void)
{
    unsigned i;
    vh_text[1] = "a"; vh_text[2] = "b"; vh_text[3] = "c";
    vh_next = 10;
    /* A: ID int2 key, S text, N int4, X binary */
    ta.view.ops = &t_ops; ta.name = "A"; ta.nc = 4; ta.nr = NRA;
    ta.type[0] = VI | KY | 2; ta.type[1] = VS | NL | 8; ta.type[2] = VI | NL | 4; ta.type[3] = VI | NL | 2;
    ta.col[0] = "ID"; ta.col[1] = "NS"; ta.col[2] = "N"; ta.col[3] = "NM";
    for (i = 0; i < NRA; i++) {
        ta.val[i][0] = 0x8000 + 10 * (i + 1);
        ta.val[i][1] = nd_u8() & 3;
        ta.val[i][2] = vh_int(4);
        ta.val[i][3] = vh_int(2);
    }
    tb.view.ops = &t_ops; tb.name = "B"; tb.nc = 3; tb.nr = NRB;
    tb.type[0] = VI | KY | 2; tb.type[1] = VI | 2; tb.type[2] = VS | 8;
    tb.col[0] = "K"; tb.col[1] = "ID"; tb.col[2] = "T";
    for (i = 0; i < NRB; i++) {
        tb.val[i][0] = 0x8000 + 100 * (i + 1);
        tb.val[i][1] = vh_int(2);
        tb.val[i][2] = nd_u8() & 3;
    }
}
static unsigned query(const char *text)
{
    list_init(&q.mem);
    q.database = &db;
    return _libmsi_parse_sql(&db, text, &q.view, &q.mem);
}

static int w[4]; static unsigned s[4];
static struct vt ta0;               /* A as it was */
static unsigned num2(int v) { return v + 0x8000u; }
static unsigned num4(int v) { return v + 0x80000000u; }
#ifndef PARAMS
#define PARAMS ""
#endif
/* the record that binds the wildcards */
static LibmsiRecord *mk_params(void)
{
    static const char *const texts[] = { NULL, "a", "b", "c" };
    static const char kinds[] = PARAMS;
    unsigned i, n = sizeof kinds - 1;
    LibmsiRecord *rec;
    if (!n) return NULL;
    rec = libmsi_record_new(n);
    for (i = 0; i < n; i++)
        if (kinds[i] == 's') {
            s[i] = nd_u8() & 3;
            libmsi_record_set_string(rec, i + 1, texts[s[i]]);
        } else {
            if (kinds[i] == 'j') w[i] = (int)nd_range(0, 65534) - 32767;
            else { w[i] = nd_int(); ASSUME(w[i] != (int)0x80000000); }
            libmsi_record_set_int(rec, i + 1, w[i]);
        }
    return rec;
}
#ifdef MATCH
static bool matches(unsigned i, unsigned j) { return MATCH; }
#endif
#define NCOMBO (NRA * NR2)
/* combination c of rows, in the order of the FROM list read from its end */
#define ROW_A(c) (TABLES == 2 ? (c) % NRA : (c))
#define ROW_B(c) (TABLES == 2 ? (c) / NRA : 0)
static unsigned cell(unsigned c, unsigned table, unsigned col)
{
    return table ? tb.val[ROW_B(c)][col] : ta0.val[ROW_A(c)][col];
}
static bool before(unsigned c, unsigned d)
{
#ifdef KEYS
    unsigned k;
    for (k = 0; k < NKEYS; k++) {
        unsigned x = cell(c, keys[k][0], keys[k][1]), y = cell(d, keys[k][0], keys[k][1]);
        if (x != y) return x < y;
    }
#endif
    return c < d;
}
static bool same(unsigned c, unsigned d)
{
    unsigned k;
    for (k = 0; k < NCOLS; k++)
        if (cell(c, outcols[k][0], outcols[k][1]) != cell(d, outcols[k][0], outcols[k][1])) return false;
    return true;
}
#ifndef TIMES
#define TIMES 1
#endif
#ifdef KIND_SELECT
static void select_main(LibmsiRecord *rec)
{
    unsigned c, d, k, r, rows, cols, n, t, v, type;
    const char *name, *tname;
    bool m[NCOMBO], temp;
    for (t = 0; t < TIMES; t++) {
        r = _libmsi_query_execute(&q, rec);
        CHECK(r == LIBMSI_RESULT_SUCCESS, "the query runs");
    }
    rows = cols = 77;
    CHECK(!q.view->ops->get_dimensions(q.view, &rows, &cols), "dimensions");
    CHECK(cols == NCOLS, "as many columns as selected");
    for (k = 0; k < NCOLS; k++) {
        const struct vt *o = outcols[k][0] ? &tb : &ta;
        CHECK(!q.view->ops->get_column_info(q.view, k + 1, &name, &type, &temp, &tname), "column");
        CHECK(name == o->col[outcols[k][1]] && type == o->type[outcols[k][1]] && tname == o->name, "the selected columns, in order");
    }
    n = 0;
    for (c = 0; c < NCOMBO; c++) m[c] = matches(ROW_A(c), ROW_B(c));
#ifdef DISTINCT
    {
        bool first[NCOMBO];
        for (c = 0; c < NCOMBO; c++) {
            first[c] = m[c];
            for (d = 0; d < NCOMBO; d++) if (c != d && m[d] && before(d, c) && same(c, d)) first[c] = false;
        }
        for (c = 0; c < NCOMBO; c++) m[c] = first[c];
    }
#endif
    for (c = 0; c < NCOMBO; c++) {
        unsigned rank = 0;
        if (!m[c]) continue;
        n++;
        for (d = 0; d < NCOMBO; d++) if (m[d] && before(d, c)) rank++;
        for (k = 0; k < NCOLS; k++) {
            r = q.view->ops->fetch_int(q.view, rank, k + 1, &v);
            CHECK(!r, "a row that matches is in the result");
            CHECK(v == cell(c, outcols[k][0], outcols[k][1]), "the selected rows, in order, with their values");
        }
    }
    CHECK(rows == n, "no other rows are in the result");
    CHECK(q.view->ops->fetch_int(q.view, n, 1, &v) != LIBMSI_RESULT_SUCCESS, "nothing after the last row");
}
#endif
void vh_main(void)
{
    unsigned r, i, j, n = 0;
    LibmsiRecord *rec;
    mk_tables();
    ta0 = ta;
    before_b = tb;
    rec = mk_params();
    r = query(QT);
#ifdef RUNS
    if (RUNS) {
        CHECK(r == LIBMSI_RESULT_SUCCESS, "the query is accepted");
        r = _libmsi_query_execute(&q, rec);
    }
    CHECK(r != LIBMSI_RESULT_SUCCESS, "the query is refused");
    CHECK(RUNS || !q.view, "no view is left");
    CHECK(!ta.nset && !ta.nins && !ta.ndel, "nothing is changed");
#else
    CHECK(r == LIBMSI_RESULT_SUCCESS && q.view, "the query is accepted");
#if defined(KIND_SELECT)
    select_main(rec);
    CHECK(!ta.nset && !ta.nins && !ta.ndel, "nothing is changed");
#else
    r = _libmsi_query_execute(&q, rec);
    CHECK(r == LIBMSI_RESULT_SUCCESS, "the query runs");
    j = 0;
#if defined(SETS)
    {
        static struct vt want, *t = &want;
        want = ta0;
        for (i = 0; i < NRA; i++) if (matches(i, 0)) { SETS }
        CHECK(ta.nr == NRA, "no row comes or goes");
        for (i = 0; i < NRA; i++)
            for (j = 0; j < 4; j++)
                CHECK(ta.val[i][j] == want.val[i][j], "the rows that match have the new values, and nothing else changes");
    }
#elif defined(ROW)
    {
        const unsigned row[] = ROW;
#ifndef AT
#define AT NRA
#endif
#ifndef TEMP
#define TEMP false
#endif
        CHECK(ta.nr == NRA + 1, "one row is added");
        for (j = 0; j < 4; j++) CHECK(ta.val[AT][j] == row[j], "each value is in the column named for it");
        CHECK(ta.temp[AT] == TEMP, "temporary as asked");
        for (i = 0; i < NRA; i++)
            for (j = 0; j < 4; j++) CHECK(ta.val[i + (AT <= i)][j] == ta0.val[i][j], "other rows stay");
    }
#elif defined(DEL)
    for (i = 0; i < NRA; i++) {
        if (matches(i, 0)) continue;
        CHECK(n < ta.nr, "a row that does not match stays");
        for (j = 0; j < 4; j++) CHECK(ta.val[n][j] == ta0.val[i][j], "a row that does not match stays as it is");
        n++;
    }
    CHECK(ta.nr == n, "each row that matches is deleted");
#endif
#endif
#endif
    for (i = 0; i < NRB; i++)
        for (j = 0; j < 3; j++) CHECK(tb.val[i][j] == before_b.val[i][j], "other tables stay");
    (void)n;
    REACH("end");
}
#ifndef VH_NATIVE
int main(void) { vh_main(); return 0; }
#endif
