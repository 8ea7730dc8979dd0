/* Contracts of the table view operations.  OP: 1 insert, 2 set_row, 3 delete.
 * NUL: bit i set: the record has no value in field i+1.  ROW: row argument. */
#ifndef NUL
#define NUL 0
#endif
#ifndef ROW
#define ROW -1
#endif
#ifndef MASK
#define MASK 0
#endif
#ifndef TEMP
#define TEMP false
#endif
#define NULLABLE(t) ((t) & MSITYPE_NULLABLE)

/* the stored value a field stands for; false: the column cannot hold it */
static bool encode(unsigned t, LibmsiRecord *rec, unsigned f, unsigned *v)
{
    LibmsiField *d = &rec->fields[f];
    if (d->type == LIBMSI_FIELD_TYPE_NULL) { *v = 0; return true; }
    if (is_str(t)) {
        char c = d->u.szVal[0];
        *v = c == 'n' ? vh_next : (unsigned)(ID_V + (c - 'a'));
        return true;
    }
    if (width(t) == 2) { *v = (unsigned)d->u.iVal + 0x8000; return d->u.iVal >= -32767 && d->u.iVal <= 32767; }
    *v = (unsigned)d->u.iVal + 0x80000000u;
    return true;
}
static LibmsiRecord *mk_rec(unsigned nul)
{
    LibmsiRecord *rec = libmsi_record_new(NC);
    unsigned j;
    for (j = 0; j < NC; j++) {
        LibmsiField *d = &rec->fields[j + 1];
        if (j < 32 && (nul >> j) & 1 || MSITYPE_IS_BINARY(types[j])) continue;
        if (is_str(types[j])) {
            unsigned k = nd_u8() & 3;
            d->type = LIBMSI_FIELD_TYPE_STR;
            d->u.szVal = malloc(VH_SHORT_TEXT);
            d->u.szVal[0] = k == 3 ? 'n' : 'a' + k;
            d->u.szVal[1] = 0;
        } else {
            d->type = LIBMSI_FIELD_TYPE_INT;
            d->u.iVal = nd_u32();
        }
    }
    return rec;
}
static bool same_key(const unsigned *a, const unsigned *b)
{
    unsigned j;
    for (j = 0; j < NC; j++) if ((types[j] & KY) && a[j] != b[j]) return false;
    return true;
}
static bool same_row(const unsigned *a, const unsigned *b)
{
    unsigned j;
    for (j = 0; j < NC; j++) if (a[j] != b[j]) return false;
    return true;
}

static void ops_main(void)
{
    LibmsiDatabase db;
    LibmsiView *v;
    LibmsiTable *t;
    LibmsiRecord *rec;
    unsigned val[NR + 1][MC], now[NR + 2][MC], want[MC], i, j, p, r, rows, cols;
    bool pers[NR + 1], range = true, nulls = true, dup = false, found;
    mk_db(&db);
    t = mk_T(&db, NR, val, 0);
    for (i = 0; i < NR; i++) pers[i] = t->data_persistent[i] = nd_bool();
    /* the table is well formed: keys are unique, no value is missing, and
     * persistent rows count as uses of their texts */
    for (i = 0; i < NR; i++) {
        for (j = 0; j < NC; j++) {
            if (!NULLABLE(types[j])) ASSUME(val[i][j]);
            if (is_str(types[j]) && val[i][j]) { if (pers[i]) vh_uses_p[val[i][j]] = 1; else vh_uses_n[val[i][j]] = 1; }
        }
        for (j = 0; j < i; j++) ASSUME(!same_key(val[i], val[j]));
    }
    r = table_view_create(&db, "T", &v);
    CHECK(r == LIBMSI_RESULT_SUCCESS, "the table opens");
    CHECK(v->ops->execute(v, NULL) == LIBMSI_RESULT_SUCCESS, "executes");
    rec = mk_rec(NUL);
#if OP == 1
    for (j = 0; j < NC; j++) {
        if (!encode(types[j], rec, j + 1, &want[j])) range = false;
        if (!NULLABLE(types[j]) && !want[j]) nulls = false;
    }
    for (i = 0; i < NR; i++) if (same_key(val[i], want)) dup = true;
    r = v->ops->insert_row(v, rec, ROW, TEMP);
    CHECK((r == LIBMSI_RESULT_SUCCESS) == (range && nulls && !dup),
          "a row is inserted exactly if its key is new, its values fit and none is missing");
#elif OP == 2
    for (j = 0; j < NC; j++) {
        if (!(MASK >> (j & 31) & 1)) continue;
        if (!encode(types[j], rec, j + 1, &want[j])) range = false;
    }
    r = v->ops->set_row(v, ROW, rec, MASK);
    CHECK((r == LIBMSI_RESULT_SUCCESS) == range, "a row is updated exactly if the new values fit");
#elif OP == 3
    r = v->ops->delete_row(v, ROW);
    CHECK((r == LIBMSI_RESULT_SUCCESS) == (ROW < NR), "an existing row can be deleted");
#endif
    v->ops->get_dimensions(v, &rows, &cols);
    CHECK(cols == NC, "the columns stay");
    CHECK(rows == NR + (OP == 1 && r == LIBMSI_RESULT_SUCCESS) - (OP == 3 && r == LIBMSI_RESULT_SUCCESS),
          "the number of rows changes by exactly the rows inserted or deleted");
    for (i = 0; i < NR + 1; i++)
        for (j = 0; j < NC; j++)
            if (i < rows) CHECK(v->ops->fetch_int(v, i, j + 1, &now[i][j]) == LIBMSI_RESULT_SUCCESS, "every cell of every row reads");
    CHECK(v->ops->fetch_int(v, rows, 1, &p) == NO_MORE_ITEMS, "and no other row");
#if OP == 1
    if (r == LIBMSI_RESULT_SUCCESS) {
        found = false;
        for (p = 0; p <= NR; p++) {
            bool m = (ROW == -1 || p == (unsigned)ROW) && same_row(now[p], want) && t->data_persistent[p] == !TEMP;
            for (i = 0; i < NR; i++)
                m = m && same_row(now[i < p ? i : i + 1], val[i]) && t->data_persistent[i < p ? i : i + 1] == pers[i];
            found = found || m;
        }
        CHECK(found, "the new row holds the values given, and all other rows stay as and in the order they were");
        for (j = 0; j < NC; j++)
            if (is_str(types[j]) && want[j]) CHECK(TEMP || vh_uses_p[want[j]] > 0, "the text of a persistent row is in persistent use");
        REACH("inserted");
    } else
        for (i = 0; i < NR; i++)
            CHECK(same_row(now[i], val[i]) && t->data_persistent[i] == pers[i], "a refused insertion leaves every row as it was");
#elif OP == 2
    for (i = 0; i < NR; i++) {
        CHECK(t->data_persistent[i] == pers[i], "rows stay persistent or temporary");
        if (i != ROW) CHECK(same_row(now[i], val[i]), "other rows stay as they were");
        else for (j = 0; j < NC; j++) {
            if (!(MASK >> (j & 31) & 1)) CHECK(now[i][j] == val[i][j], "fields not set stay as they were");
            else if (r == LIBMSI_RESULT_SUCCESS) {
                CHECK(now[i][j] == want[j], "fields set hold the values given");
                if (is_str(types[j]) && want[j]) CHECK(!pers[i] || vh_uses_p[want[j]] > 0, "the text of a persistent row is in persistent use");
            }
        }
    }
    if (r == LIBMSI_RESULT_SUCCESS) REACH("updated");
#elif OP == 3
    for (i = 0; i < rows; i++)
        CHECK(same_row(now[i], val[r == LIBMSI_RESULT_SUCCESS && i >= ROW ? i + 1 : i]) &&
              t->data_persistent[i] == pers[r == LIBMSI_RESULT_SUCCESS && i >= ROW ? i + 1 : i], "the other rows stay as and in the order they were");
    if (r == LIBMSI_RESULT_SUCCESS) REACH("deleted");
#endif
    /* what is read back of each row as a record */
    for (i = 0; i < rows; i++) {
        LibmsiRecord *out = NULL;
        if (OP == 1 && rows != NR + 1) continue;
#ifdef U_GETROW
        CHECK(v->ops->get_row(v, i, &out) == LIBMSI_RESULT_SUCCESS && out->count == NC, "a row reads as a record of all columns");
        for (j = 0; j < NC; j++) {
            if (MSITYPE_IS_BINARY(types[j])) continue;
            CHECK(libmsi_record_is_null(out, j + 1) == !now[i][j], "missing values read as missing");
            if (!now[i][j]) continue;
            if (is_str(types[j])) CHECK(_libmsi_record_get_string_raw(out, j + 1)[0] == msi_string_lookup_id(NULL, now[i][j])[0], "texts read as they are");
            else CHECK((unsigned)libmsi_record_get_int(out, j + 1) == now[i][j] - (width(types[j]) == 2 ? 0x8000 : 0x80000000u), "numbers read as they are");
        }
        REACH("get row");
#endif
    }
    CHECK(v->ops->delete(v) == LIBMSI_RESULT_SUCCESS, "closed");
}
