/* The result rows of where.c: init_reorder and add_row keep every row however many there are. */
#include "vh.h"
#include "models/glib.h"
#include "libmsi.h"
#include "libmsi/msipriv.h"
#include "query.h"
#include "libmsi/where.c"
#ifndef S
#define S 2
#endif
#ifndef N
#define N 2
#endif
#ifndef NT
#define NT 2
#endif
void vh_main(void)
{
    static LibmsiWhereView wv;
    static unsigned had[N + 1][NT];
    LibmsiRowEntry *e[N + 1];
    unsigned i, j, v[NT];
    wv.table_count = NT;
#ifdef INIT
    wv.reorder_size = nd_u32() & 7;
    wv.row_count = 0;
    CHECK(init_reorder(&wv) == LIBMSI_RESULT_SUCCESS, "the rows start");
    CHECK(wv.row_count == 0 && wv.reorder_size > 0, "with none");
    CHECK(wv.reorder_size <= 4096, "BOUND: initial size");
    wv.reorder[wv.reorder_size - 1] = NULL;
#endif
    wv.row_count = N;
    wv.reorder_size = S;
    wv.reorder = malloc(S * sizeof *wv.reorder);
    ASSUME(wv.reorder != NULL);
    for (i = 0; i < N; i++) {
        e[i] = malloc(offsetof(LibmsiRowEntry, values) + NT * sizeof(unsigned));
        ASSUME(e[i] != NULL);
        for (j = 0; j < NT; j++) had[i][j] = e[i]->values[j] = nd_u32();
        e[i]->wv = &wv;
        wv.reorder[i] = e[i];
    }
    for (j = 0; j < NT; j++) had[N][j] = v[j] = nd_u32();
    CHECK(add_row(&wv, v) == LIBMSI_RESULT_SUCCESS, "the row is added");
    CHECK(wv.row_count == N + 1 && wv.reorder_size >= N + 1, "one row more, and room for it");
    CHECK(wv.reorder_size <= 4 * S + 64, "BOUND: growth");
    for (i = 0; i <= N; i++) {
        CHECK(i == N || wv.reorder[i] == e[i], "the rows before it stay");
        CHECK(wv.reorder[i]->wv == &wv, "rows know their view");
        for (j = 0; j < NT; j++) CHECK(wv.reorder[i]->values[j] == had[i][j], "each row has its values");
    }
    wv.reorder[wv.reorder_size - 1] = wv.reorder[0];   /* all the room there is said to be */
    REACH("end");
}
#ifndef VH_NATIVE
int main(void) { vh_main(); return 0; }
#endif
