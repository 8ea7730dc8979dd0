/* Table storage and the table view: table.c, libmsi-record.c, msi_view_get_row */
#define VH_SHORT_TEXT 12
#include "vh.h"
#include "models/glib.h"
#include "models/pool.h"
#include "models/record.h"

#ifndef NR
#define NR 2
#endif
#ifndef CFG
#define CFG 0
#endif

/* --- assumed contract: compound file ------------------------------------- */
#define MAXS 6
static struct stm { GObject o; char name[48]; uint8_t *data; unsigned sz; bool open; } stms[MAXS];
static unsigned nstm;
static struct stm *vh_stream(const char *name)
{
    unsigned i;
    for (i = 0; i < nstm; i++) if (!strcmp(stms[i].name, name)) return &stms[i];
    return NULL;
}
GsfInput *gsf_infile_child_by_name(GsfInfile *f, char const *name)
{
    struct stm *s = vh_stream(name);
    if (s) s->o.ref_count++;
    return (GsfInput *)s;
}
gsf_off_t gsf_input_size(GsfInput *i) { return ((struct stm *)i)->sz; }
guint8 const *gsf_input_read(GsfInput *i, size_t n, guint8 *buf)
{
    struct stm *s = (struct stm *)i;
    unsigned k;
    CHECK(n <= s->sz, "reads what the stream has");
    for (k = 0; k < n; k++) buf[k] = s->data[k];
    return buf;
}
GsfOutput *gsf_outfile_new_child(GsfOutfile *f, char const *name, gboolean dir)
{
    struct stm *s = &stms[nstm++];
    CHECK(nstm <= MAXS, "BOUND: streams");
    CHECK(!dir, "streams are not storages");
    strcpy(s->name, name);
    s->o.ref_count = 1;
    s->open = true;
    return (GsfOutput *)s;
}
gboolean gsf_output_write(GsfOutput *o, size_t n, guint8 const *d)
{
    struct stm *s = (struct stm *)o;
    unsigned k;
    CHECK(s->open && !s->data, "one write to an open stream");
    s->data = malloc(n ? n : 1);
    for (k = 0; k < n; k++) s->data[k] = d[k];
    s->sz = n;
    return TRUE;
}
gboolean gsf_output_close(GsfOutput *o) { ((struct stm *)o)->open = false; return TRUE; }

unsigned streams_view_create(LibmsiDatabase *db, LibmsiView **v) { return LIBMSI_RESULT_FUNCTION_FAILED; }
unsigned storages_view_create(LibmsiDatabase *db, LibmsiView **v) { return LIBMSI_RESULT_FUNCTION_FAILED; }
/* --- assumed contract: running the query that stores a stream --------------- */
LibmsiQuery *libmsi_query_new(LibmsiDatabase *db, const char *q, GError **err) { return calloc(1, sizeof(LibmsiQuery)); }
static const char *vh_added; static GsfInput *vh_added_data; static unsigned vh_nadded; static bool vh_add_fails;
LibmsiResult _libmsi_query_execute(LibmsiQuery *q, LibmsiRecord *rec)
{
    if (vh_add_fails) return LIBMSI_RESULT_FUNCTION_FAILED;
    vh_added = g_strdup(_libmsi_record_get_string_raw(rec, 1));
    vh_added_data = rec->fields[2].u.stream;
    vh_nadded++;
    return LIBMSI_RESULT_SUCCESS;
}
#ifdef U_GETROW
#define PROP_0 QPROP_0
#define PROP_DATABASE QPROP_DATABASE
#define libmsi_query_new real_query_new
#define _libmsi_query_execute real_query_execute
LibmsiQuery *real_query_new(LibmsiDatabase *, const char *, GError **);
LibmsiResult real_query_execute(LibmsiQuery *, LibmsiRecord *);
#include "libmsi/libmsi-query.c"
#undef libmsi_query_new
#undef _libmsi_query_execute
#endif
#if !defined(VH_NATIVE)
/* allocations as objects of the type they hold, of exactly the size asked for:
 * arrays of pointers, and the lookup table of a column */
static void *vh_ptrs(size_t n) { return malloc(sizeof(void *) * (n / sizeof(void *))); }
static void *vh_realloc_typed(void *p, size_t n)
{
    size_t i, m;
    if (!p) return malloc(n);
    m = __CPROVER_OBJECT_SIZE(p);
    if (m > n) m = n;
    if (n % sizeof(void *) == 0) {
        void **q = vh_ptrs(n);
        for (i = 0; i < m / sizeof(void *); i++) q[i] = ((void **)p)[i];
        free(p);
        return q;
    } else {
        uint8_t *q = malloc(n);
        for (i = 0; i < m; i++) q[i] = ((uint8_t *)p)[i];
        free(p);
        return q;
    }
}
#define msi_realloc(p, n) vh_realloc_typed(p, n)
#endif
#include "libmsi/table.c"
#undef msi_alloc
#undef msi_realloc

/* --- tables --------------------------------------------------------------- */
#define VS (MSITYPE_VALID | MSITYPE_STRING)
#define VI MSITYPE_VALID
#define NL MSITYPE_NULLABLE
#define KY MSITYPE_KEY
#define BIN (MSITYPE_VALID | MSITYPE_STRING | MSITYPE_NULLABLE)
#if CFG == 0
#define TYPES { VI | KY | 2, VS | NL | 64 }
#elif CFG == 1
#define TYPES { VS | KY | 72, VI | KY | 4, VI | NL | 2, VS | NL | 255 }
#elif CFG == 2
#define TYPES { VS | KY | 8, BIN, VI | 4 }
#elif CFG == 3
#define TYPES { VS | KY | 8, VS | NL | MSITYPE_LOCALIZABLE, VS | 255, VI | NL | 4 }
#elif CFG == 4
#define TYPES { VI | KY | 4 }
#elif CFG == 7
#define TYPES { VS | KY | 8, VS | NL | 9 }
#elif CFG == 6      /* as many columns as a mask has bits, and more */
#ifndef MC
#define MC 33
#endif
#define I4 VI | NL | 2, VI | NL | 2, VI | NL | 2, VI | NL | 2
#define TYPES { VI | KY | 2, VI | NL | 2, VI | NL | 2, I4, I4, I4, I4, I4, I4, I4, VS | NL | 9, VI | NL | 2 }
#elif CFG == 5
#define TYPES { VI | KY | NL | 2, VS | KY | NL | 8, VS | NL | 9 }
#endif
#ifndef MC
#define MC 4
#endif
static const unsigned types[] = TYPES;
#define NC (sizeof types / sizeof types[0])
static const char *colnames[] = { "A", "B", "C", "D" };
enum { ID_T = 1, ID_A = 2, ID_V = 6, NV = 3 };      /* ids: table, columns, values a b c */
static const char *const values[] = { "a", "b", "c" };

#define COLS_NAME "\xe4\xa1\x80\xe3\xac\xbf\xe4\x8f\xb2\xe4\x90\xb8\xe4\x96\xb1"
#define T_NAME "\xe4\xa1\x80\xe4\xa0\x9d"
static unsigned width(unsigned t)
{
    if (MSITYPE_IS_BINARY(t)) return 2;
    if (t & MSITYPE_STRING) return 3;
    return (t & 0xff) <= 2 ? 2 : 4;
}
static bool is_str(unsigned t) { return (t & MSITYPE_STRING) && !MSITYPE_IS_BINARY(t); }

static void mk_pool(void)
{
    unsigned i;
    vh_text[ID_T] = "T";
    for (i = 0; i < 4; i++) vh_text[ID_A + i] = colnames[i];
    for (i = 0; i < NV; i++) vh_text[ID_V + i] = values[i];
}
static void mk_db(LibmsiDatabase *db)
{
    memset(db, 0, sizeof *db);
    list_init(&db->tables);
}
static LibmsiTable *mk_table(LibmsiDatabase *db, const char *name, unsigned nc, unsigned nr, LibmsiCondition pers)
{
    unsigned sz = strlen(name);
    LibmsiTable *t = calloc(1, sizeof(LibmsiTable) + sz);
    memcpy(t->name, name, sz + 1);
    t->persistent = pers;
    t->row_count = nr;
    if (nr) {
        t->data = malloc(nr * sizeof(uint8_t *));
        t->data_persistent = malloc(nr * sizeof(bool));
    }
    t->col_count = nc;
    list_add_tail(&db->tables, &t->entry);
    return t;
}
static void put(uint8_t *p, unsigned v, unsigned n)
{
    unsigned k;
    for (k = 0; k < n; k++) p[k] = v >> 8 * k;
}
/* an arbitrary cell as stored; maxid 0: texts of the pool or no text */
static unsigned cell(unsigned t, unsigned maxid, uint8_t *d)
{
    unsigned k, v = 0, w = width(t);
    for (k = 0; k < w; k++) d[k] = 0;
    if (MSITYPE_IS_BINARY(t)) v = d[0] = nd_u8() & 1;
    else if (is_str(t) && !maxid) {
        v = nd_u8() & 3;
        if (v) v += ID_V - 1;
        d[0] = v;
    } else if (is_str(t) && maxid < 0x10000) {
        /* with two-byte references, ids among these keep control flow constant */
        static const unsigned ids[] = { 0xffff, 1, 0, 0x100, 0xff, 0x8000, 0x1234, 0xfffe };
        static unsigned n;
        v = ids[n++ % 8];
        put(d, v, 3);
    } else
        for (k = 0; k < w; k++)
            {
                d[k] = nd_u8();
                v |= (unsigned)d[k] << 8 * k;
            }
    return v;
}
static unsigned rowsize(void)
{
    unsigned i, s = 0;
    for (i = 0; i < NC; i++) s += width(types[i]);
    return s;
}
static LibmsiTable *mk_T(LibmsiDatabase *db, unsigned nr, unsigned v[][MC], unsigned maxid)
{
    LibmsiTable *t = mk_table(db, "T", NC, nr, LIBMSI_CONDITION_TRUE);
    unsigned i, j, o;
    t->colinfo = calloc(NC, sizeof(LibmsiColumnInfo));
    for (i = o = 0; i < NC; i++) {
        t->colinfo[i].tablename = vh_text[ID_T];
        t->colinfo[i].number = i + 1;
        t->colinfo[i].colname = vh_text[ID_A + i % 4];
        t->colinfo[i].type = types[i];
        t->colinfo[i].offset = o;
        o += width(types[i]);
    }
    for (i = 0; i < nr; i++) {
        t->data[i] = malloc(rowsize());
        for (j = o = 0; j < NC; j++) {
            v[i][j] = cell(types[j], maxid, t->data[i] + o);
            o += width(types[j]);
        }
        t->data_persistent[i] = true;
    }
    return t;
}
static void mk_catalog(LibmsiDatabase *db)
{
    LibmsiTable *t = mk_table(db, "_Tables", 1, 1, LIBMSI_CONDITION_NONE);
    unsigned i;
    t->data[0] = malloc(3);
    put(t->data[0], ID_T, 3);
    t->data_persistent[0] = true;
    t->colinfo = malloc(sizeof _Tables_cols);
    memcpy(t->colinfo, _Tables_cols, sizeof _Tables_cols);
    t = mk_table(db, "_Columns", 4, NC, LIBMSI_CONDITION_NONE);
    t->colinfo = malloc(sizeof _Columns_cols);
    memcpy(t->colinfo, _Columns_cols, sizeof _Columns_cols);
    table_calc_column_offsets(db, t->colinfo, 4);
    for (i = 0; i < NC; i++) {
        uint8_t *d = t->data[i] = malloc(10);
        put(d, ID_T, 3);
        put(d + 3, 0x8000 + i + 1, 2);
        put(d + 5, ID_A + i, 3);
        put(d + 8, 0x8000 + types[i], 2);
        t->data_persistent[i] = true;
    }
}

#ifdef U_OPS
#include "table_ops.h"
#endif
void vh_main(void)
{
    mk_pool();
#ifdef U_ROUND
    /* commit a table, load it again */
    LibmsiDatabase db, db2;
    LibmsiView *v;
    unsigned val[NR + 1][MC], i, j, n, r, rows, cols, x;
    LibmsiTable *t;
    unsigned pers = PERS;
    mk_db(&db); mk_db(&db2);
    db.outfile = (GsfOutfile *)&db;
    db.bytes_per_strref = 2;
    db2.infile = (GsfInfile *)&db2;
    db2.bytes_per_strref = SR;
    mk_catalog(&db);
    t = mk_T(&db, NR, val, SR == 2 ? 0xffff : 0xffffff);
    for (i = 0; i < NR; i++) t->data_persistent[i] = (pers >> i) & 1;
    r = _libmsi_database_commit_tables(&db, SR);
    CHECK(r == LIBMSI_RESULT_SUCCESS, "tables are committed");
    for (i = 0; i < nstm; i++) CHECK(!stms[i].open && stms[i].o.ref_count == 0, "streams are closed");
    CHECK(vh_critical == 0 && vh_warning == 0, "no problem reported");
    CHECK(table_view_exists(&db2, "T"), "a committed table exists");
    CHECK(!table_view_exists(&db2, "A"), "and no other");
    r = table_view_create(&db2, "T", &v);
    CHECK(r == LIBMSI_RESULT_SUCCESS, "a committed table loads");
    CHECK(vh_critical == 0 && vh_warning == 0, "no problem reported");
    v->ops->get_dimensions(v, &rows, &cols);
    CHECK(cols == NC, "all columns");
    for (i = n = 0; i < NR; i++) n += (pers >> i) & 1;
    CHECK(rows == n, "all persistent rows and no temporary ones");
    for (j = 0; j < NC; j++) {
        const char *name, *tn;
        unsigned ty;
        CHECK(v->ops->get_column_info(v, j + 1, &name, &ty, NULL, &tn) == LIBMSI_RESULT_SUCCESS, "column info");
        CHECK(!strcmp(name, colnames[j]) && ty == types[j] && !strcmp(tn, "T"), "column declarations survive");
    }
    for (i = n = 0; i < NR; i++) {
        if (!((pers >> i) & 1)) continue;
        for (j = 0; j < NC; j++) {
            r = v->ops->fetch_int(v, n, j + 1, &x);
            CHECK(r == LIBMSI_RESULT_SUCCESS && x == val[i][j], "every cell keeps its value");
        }
        n++;
    }
    REACH("round trip");
#elif defined(U_MAL)
    /* catalogues and rows of arbitrary content: odd column numbers and types
     * (enumerated), rows of any bytes and any stream size up to TS */
    static const unsigned nums[][3] = { { 1, 2, 3 }, { 1, 1, 2 }, { 0, 1, 2 }, { 2, 3, 4 }, { 3, 2, 1 }, { 1, 3, 0xffff } };
    static const unsigned odd[][3] = { { VS | KY | 8, VI | 4, VI | 2 }, { 0, 1, 3 }, { 0x7fff, 0xffff, 0x8000 }, { VI | KY | 255, VS, BIN }, { VS | 8, MSITYPE_STRING, VI | 1 } };
    unsigned a, b, sz, i, j, rows, cols, x;
    LibmsiView *v;
    a = MA; b = MB;
            for (sz = SZ0; sz <= TS; sz++) {
                LibmsiDatabase db;
                struct stm *s;
                mk_db(&db);
                db.infile = (GsfInfile *)&db;
                db.bytes_per_strref = SR;
                nstm = 0;
                memset(stms, 0, sizeof stms);
                s = (struct stm *)gsf_outfile_new_child(NULL, COLS_NAME, FALSE);
                s->sz = 3 * (2 * SR + 4);
                s->data = malloc(3 * (2 * SR + 4));
                for (i = 0; i < 3; i++) {
                    put(s->data + i * SR, ID_T, SR);
                    put(s->data + 3 * SR + i * 2, 0x8000 + nums[a][i], 2);
                    put(s->data + 3 * (SR + 2) + i * SR, i == 2 && b == 1 ? 15 : ID_A + i, SR);
                    put(s->data + 3 * (2 * SR + 2) + i * 2, 0x8000 + odd[b][i], 2);
                }
                s = (struct stm *)gsf_outfile_new_child(NULL, T_NAME, FALSE);
                s->sz = sz;
                s->data = malloc(TS + 1);
                for (i = 0; i < sz; i++) s->data[i] = nd_u8();
                if (table_view_create(&db, "T", &v) != LIBMSI_RESULT_SUCCESS) { REACH("refused"); continue; }
                CHECK(v->ops->get_dimensions(v, &rows, &cols) == LIBMSI_RESULT_SUCCESS && cols == 3, "size known");
                for (i = 0; i < rows; i++)
                    for (j = 0; j < cols; j++) CHECK(v->ops->fetch_int(v, i, j + 1, &x) == LIBMSI_RESULT_SUCCESS, "every cell of every row reads");
                if (rows) REACH("loaded");
                v->ops->delete(v);
            }
#elif defined(U_OPS)
    ops_main();
#endif
}
#ifndef VH_NATIVE
int main(void) { vh_main(); return 0; }
#endif
