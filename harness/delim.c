/* Statements of a text: tools/sqldelim.c */
#include "vh.h"
#include "models/glib.h"
#ifndef LEN
#define LEN 5
#endif
#define CAP (2 * LEN + 2)
/* GString by contract: a growing text, NUL terminated as soon as it was written to */
static char text[CAP];
#undef g_string_append_len
GString *g_string_append_len(GString *s, const char *p, gssize n)
{
    gsize i;
    CHECK(n >= 0 && s->len + n < CAP, "a statement is no longer than the text");
    for (i = 0; i < LEN; i++) if (i < (gsize)n) text[s->len + i] = p[i];
    s->len += n;
    text[s->len] = 0;
    s->str = text;
    return s;
}
GString *g_string_erase(GString *s, gssize at, gssize n)
{
    CHECK(at == 0 && n == (gssize)s->len, "the statement is taken whole");
    s->len = 0;
    text[0] = 0;
    s->str = text;
    return s;
}
#undef g_string_append_c
/* words that begin a statement: contract of sqlite_find_keyword (decided by U_WORD) with one such word */
static void *vh_bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
#ifdef U_WORD
    const char *p = base;
    void *found = NULL;
    int last = 1;
    size_t i;
    for (i = 0; i < n; i++) {
        int r = cmp(key, p + i * sz);
        CHECK(r <= 0 || last > 0, "the keywords are in order");
        if (!r) found = (void *)(p + i * sz);
        last = r;
    }
    return found;
#else
    const char *k = key;
    return k[0] == 'K' && !k[1] ? (void *)base : NULL;
#endif
}
#define bsearch vh_bsearch
#include "tools/sqldelim.c"

static bool word_char(unsigned char c) { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == 5 || c >= 0x80; }
static bool blank(unsigned char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\v'; }
static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
#ifdef U_SKIP
/* one token: how far it goes, and whether it ends the statement before it */
void vh_main(void)
{
    unsigned n = nd_range(1, LEN), i, e;
    unsigned char z[LEN + 1];
    const char *p;
    bool cont0 = nd_bool(), cont = cont0, done, word = false, odd = false;
    for (i = 0; i < n; i++) { z[i] = nd_u8(); ASSUME(z[i] != 0 && z[i] != '\r'); }
    z[n] = 0;
    char *b = malloc(n + 1);
    ASSUME(b != NULL);
    for (i = 0; i <= n; i++) b[i] = z[i];
    p = b;
    unsigned char c = z[0];
    e = 1;
    if (blank(c) && c != '\v') while (e < n && blank(z[e])) e++;
    else if (c == '\'' || c == '`') { while (e < n && z[e] != c) e++; if (e < n) e++; }
    else if (c == '[') while (e < n && z[e - 1] != ']') e++;
    else if (digit(c)) while (e < n && digit(z[e])) e++;
    else if (c == '-' || c == '(' || c == ')' || c == '*' || c == '=' || c == '<' || c == '>' || c == '!' || c == '?' || c == ',' || c == '.') ;
    else if (word_char(c)) { word = true; while (e < n && word_char(z[e])) e++; }
    else odd = true;
    bool begins = word && e == 1 && c == 'K' && cont0;
    done = sql_skip_token(&p, &cont);
    CHECK(p == b + (begins ? 0 : e), "a token is taken whole, and none that begins the next statement");
    CHECK(done == (begins || odd), "a statement ends before a word that begins one and at a byte that is no SQL");
    if (!done && !(word && !z[e])) CHECK(cont, "a statement word after it begins the next statement");
    REACH("end");
}
#elif defined(U_WORD)
static const char *const words[] = { "ALTER", "CREATE", "DELETE", "DROP", "INSERT", "SELECT", "UPDATE" };
void vh_main(void)
{
    unsigned k, i;
    char z[LEN + 1];
    bool want = false;
    for (i = 0; i < LEN; i++) { z[i] = nd_u8(); ASSUME(z[i] >= 'a' && z[i] <= 'z' || z[i] >= 'A' && z[i] <= 'Z' || z[i] == '_' || i && (z[i] >= '0' && z[i] <= '9' || z[i] == '-') || z[i] < 0); }
    z[LEN] = nd_bool() ? 0 : ' ';
    for (k = 0; k < 7; k++) {
        for (i = 0; i < LEN && words[k][i]; i++) if ((z[i] >= 'a' && z[i] <= 'z' ? z[i] - 32 : z[i]) != words[k][i]) break;
        if (i == LEN && !words[k][i]) want = true;
    }
    CHECK(!!sqlite_find_keyword(z, LEN) == want, "POST: exactly these words begin a statement, in any case");
    REACH("end");
}
#else
#define TPL "K a;", " K a", "K a; ", "K ';K`' K b", "K `;'` ; K", ";; K;", "K,a(1)K.2", "K [;K] K", "';K", "", " ", "K\"a K", "a K K;b", "K\n;\n\tK", "Ka aK K1 K"
static unsigned char z[LEN + 2];
static unsigned len, nout, fail_at;
static char outs[LEN + 2][LEN + 2];
static int take(const char *stmt, void *opaque)
{
    unsigned i;
    CHECK(nout < LEN + 1, "no more statements than bytes");
    for (i = 0; i <= LEN; i++) { outs[nout][i] = stmt[i]; if (!stmt[i]) break; }
    nout++;
    return nout == fail_at ? 5 : 0;
}
/* what the bytes belong to */
enum { SPACE, WORD, QUOTED, OP, END, ODD };
void vh_main(void)
{
    unsigned i, j, n = 0, at = 0;
    unsigned char cls[LEN + 1], first[LEN + 1];
    char want[LEN + 2][LEN + 2];
    int r;
    bool in = false;
    static const char *const tpl[] = { TPL };
    len = strlen(tpl[T]);
    CHECK(len <= LEN, "BOUND: text");
    for (i = 0; i < len; i++) {
        z[i] = tpl[T][i];
    }
    /* tokens */
    for (i = 0; i < len; ) {
        unsigned char c = z[i];
        first[i] = true;
        j = i + 1;
        if (blank(c) && c != '\v') { while (j < len && blank(z[j])) j++; cls[i] = SPACE; }
        else if (c == ';') cls[i] = END;
        else if (c == '\'' || c == '`') { while (j < len && z[j] != c) j++; if (j < len) j++; cls[i] = QUOTED; }
        else if (c == '[') { while (j < len && z[j - 1] != ']') j++; cls[i] = QUOTED; }
        else if (c >= '0' && c <= '9') { while (j < len && z[j] >= '0' && z[j] <= '9') j++; cls[i] = OP; }
        else if (c == '-' || c == '(' || c == ')' || c == '*' || c == '=' || c == '<' || c == '>' || c == '!' || c == '?' || c == ',' || c == '.') cls[i] = OP;
        else if (word_char(c)) { while (j < len && word_char(z[j])) j++; cls[i] = j == i + 1 && c == 'K' ? WORD : OP; }
        else cls[i] = ODD;
        for (i++; i < j; i++) { cls[i] = cls[i - 1]; first[i] = false; }
    }
    /* statements: the text between semicolons, from one statement word to the
     * next, and up to a byte that is no SQL; white space before it is no part of it */
    for (i = 0; i < len; i++) {
        if (in && (cls[i] == END || cls[i] == WORD && first[i])) { want[n++][at] = 0; in = false; }
        if (cls[i] == END || !in && cls[i] == SPACE) continue;
        if (!in) { in = true; at = 0; }
        want[n][at++] = z[i];
        if (cls[i] == ODD) { want[n++][at] = 0; in = false; }
    }
    if (in) want[n++][at] = 0;
    fail_at = FAIL;
    r = sql_get_statement((char *)z, take, NULL);
    if (!r) r = sql_get_statement("", take, NULL);
    if (fail_at && fail_at <= n) {
        CHECK(r == 5, "the failure of a statement is reported");
        CHECK(nout == fail_at, "and no further statement is run");
    } else {
        CHECK(r == 0, "no failure");
        CHECK(nout == n, "each statement of the text is run once");
    }
    for (i = 0; i < n && i < nout; i++)
        for (j = 0; j <= LEN; j++) {
            CHECK(outs[i][j] == want[i][j], "as it is written in the text");
            if (!want[i][j]) break;
        }
    REACH("end");
}
#endif
#ifndef VH_NATIVE
int main(void) { vh_main(); return 0; }
#endif
