/* SQL text: sql_get_token, sqlite_find_keyword, sql_unescape_string, sql_atoi */
#include "vh.h"
#include "models/glib.h"
#include "libmsi.h"
#include "libmsi/msipriv.h"
#include "query.h"
#define msi_alloc vh_msi_alloc
#define msi_free free
static void *vh_msi_alloc(size_t n) { return malloc(n); }
#include "sql-parser.c"
/* contract of bsearch: the array is in order as the comparison with the key sees
 * it; then the element equal to the key is found */
static void *vh_bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    const char *p = base;
    void *found = NULL;
    int last = 1;
    size_t i;
    for (i = 0; i < n; i++) {
        int r = cmp(key, p + i * sz);
        CHECK(r <= 0 || last > 0, "the keywords are in order");
        CHECK(r != 0 || !found, "and each is there once");
        if (!r) found = (void *)(p + i * sz);
        last = r;
    }
    return found;
}
#define bsearch vh_bsearch
#include "libmsi/tokenize.c"

#define STR_(x) #x
#define STR(x) STR_(x)
#ifndef LEN
#define LEN 6
#endif
/* independent reading of the language: names of keywords and their tokens */
static const struct { const char *name; int token; } words[] = {
    {"ALTER", TK_ALTER}, {"AND", TK_AND}, {"BY", TK_BY}, {"CHAR", TK_CHAR}, {"CHARACTER", TK_CHAR}, {"CREATE", TK_CREATE}, {"DELETE", TK_DELETE},
    {"DROP", TK_DROP}, {"DISTINCT", TK_DISTINCT}, {"FREE", TK_FREE}, {"FROM", TK_FROM}, {"HOLD", TK_HOLD}, {"ADD", TK_ADD}, {"INSERT", TK_INSERT},
    {"INT", TK_INT}, {"INTEGER", TK_INT}, {"INTO", TK_INTO}, {"IS", TK_IS}, {"KEY", TK_KEY}, {"LIKE", TK_LIKE}, {"LONG", TK_LONG}, {"LONGCHAR", TK_LONGCHAR},
    {"LOCALIZABLE", TK_LOCALIZABLE}, {"NOT", TK_NOT}, {"NULL", TK_NULL}, {"OBJECT", TK_OBJECT}, {"OR", TK_OR}, {"ORDER", TK_ORDER}, {"PRIMARY", TK_PRIMARY},
    {"SELECT", TK_SELECT}, {"SET", TK_SET}, {"SHORT", TK_SHORT}, {"TABLE", TK_TABLE}, {"TEMPORARY", TK_TEMPORARY}, {"UPDATE", TK_UPDATE}, {"VALUES", TK_VALUES}, {"WHERE", TK_WHERE} };
#define NWORDS (sizeof words / sizeof words[0])

static unsigned char z[LEN + 1];
static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
static bool letter(unsigned char c) { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80 || c == 5 /* of \5SummaryInformation */; }
static unsigned run(bool (*f)(unsigned char), unsigned i) { while (i < LEN && f(z[i])) i++; return i; }
static bool blank(unsigned char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\v'; }

void vh_main(void)
{
    unsigned i, n = 0;
    int tok = -7, skip = -7, r;
#if defined(U_TOK)
    n = nd_range(1, LEN);
    for (i = 0; i < n; i++) { z[i] = nd_u8(); ASSUME(z[i] != 0 && z[i] != '\r'); }
#ifdef FIRST
    ASSUME(FIRST);
#endif
    char *p = malloc(n + 1);
    ASSUME(p != NULL);
    for (i = 0; i <= n; i++) p[i] = z[i];
    r = sql_get_token(p, &tok, &skip);
    CHECK(r >= 1 && r <= (int)n, "a token has at least one byte and ends within the text");
    CHECK(skip == 0 || skip == 1, "at most one byte is skipped");
    CHECK(r + skip <= (int)n, "what is skipped is within the text");
    unsigned want = 1; int wt = TK_ILLEGAL;
    unsigned char c = z[0], d = z[1];
    if (blank(c) && c != '\v') { want = run(blank, 1); wt = TK_SPACE; }
    else if (c == '`' || c == '\'') {
        want = 1;
        while (want < n && z[want] != c) want++;
        if (want < n) want++;
        wt = c == '`' ? TK_ID : TK_STRING;
    } else if (c == '-') wt = TK_MINUS;
    else if (c == '(') wt = TK_LP;
    else if (c == ')') wt = TK_RP;
    else if (c == '*') wt = TK_STAR;
    else if (c == '=') wt = TK_EQ;
    else if (c == '<') { want = d == '=' || d == '>' ? 2 : 1; wt = d == '=' ? TK_LE : d == '>' ? TK_NE : TK_LT; }
    else if (c == '>') { want = d == '=' ? 2 : 1; wt = d == '=' ? TK_GE : TK_GT; }
    else if (c == '!' && d == '=') { want = 2; wt = TK_NE; }
    else if (c == '?') wt = TK_WILDCARD;
    else if (c == ',') wt = TK_COMMA;
    else if (c == '.' && !digit(d)) wt = TK_DOT;
    else if (digit(c) || c == '.') { want = run(digit, 1); wt = TK_INTEGER; }
    else if (c == '[') { want = 1; while (want < n && z[want - 1] != ']') want++; wt = TK_ID; }
    else if (letter(c)) wt = -1;
    if (wt != -1) {
        CHECK(tok == wt, "the token is what the text says");
        CHECK(r == (int)want, "and as long as it says");
    } else
        CHECK(tok != TK_SPACE && tok != TK_ILLEGAL && tok != TK_STRING && tok != TK_INTEGER, "a word is a name or a keyword");
    if (skip) CHECK(z[r] == '`' && tok == TK_ID, "only a quote that closes a name is skipped");
#elif defined(U_WORD)
    unsigned k;
    n = LEN;
    for (i = 0; i < n; i++) { z[i] = nd_u8(); ASSUME(letter(z[i]) || i && (digit(z[i]) || z[i] == '-')); }
    char *p = malloc(n + 2);
    ASSUME(p != NULL);
    for (i = 0; i < n; i++) p[i] = z[i];
    p[n] = nd_bool() ? 0 : ' ';
    p[n + 1] = 0;
    r = sql_get_token(p, &tok, &skip);
    CHECK(r == (int)n, "a word is as long as its letters and digits");
    int want = TK_ID;
    for (k = 0; k < NWORDS; k++) {
        for (i = 0; i < n && words[k].name[i]; i++)
            if ((z[i] >= 'a' && z[i] <= 'z' ? z[i] - 32 : z[i]) != words[k].name[i]) break;
        if (i == n && !words[k].name[i]) want = words[k].token;
    }
    CHECK(tok == want, "a word is a keyword in whatever case exactly if the language has it");
#elif defined(U_STR)
    static LibmsiDatabase db;
    static struct list mem;
    SQL_input in = { 0 };
    struct sql_str s;
    char *out = NULL;
    unsigned len = nd_range(1, LEN);
    char *p = malloc(len + 1);
    ASSUME(p != NULL);
    for (i = 0; i < len; i++) { z[i] = p[i] = nd_u8(); ASSUME(z[i] != 0); }
    p[len] = nd_u8();
    in.db = &db;
    list_init(&mem);
    in.mem = &mem;
    s.data = p; s.len = len;
    r = sql_unescape_string(&in, &s, &out);
    bool q = z[0] == '`' || z[0] == '\'';
    if (q && (len < 2 || z[len - 1] != z[0])) CHECK(r != LIBMSI_RESULT_SUCCESS, "a quote without an end is refused");
    else {
        CHECK(r == LIBMSI_RESULT_SUCCESS && out, "the text is read");
        n = len - 2 * q;
        for (i = 0; i < n; i++) CHECK((unsigned char)out[i] == z[i + q], "as it is between its quotes");
        CHECK(out[n] == 0, "and ends there");
    }
#elif defined(U_NUM)
    SQL_input in = { 0 };
#ifndef PFX
#define PFX
#endif
    static const char pfx[] = STR(PFX);
    uint64_t v = 0;
    int got = -7;
    unsigned len = LEN, at = AT;
    bool ok = true;
    char *p = malloc(at + len + 1);
    ASSUME(p != NULL);
    p[0] = '-';
    for (i = 0; i < len; i++) {
        z[i] = p[at + i] = i + 1 < sizeof pfx ? pfx[i] : nd_u8();
        ASSUME(z[i] != 0);
        ok = ok && digit(z[i]);
        if (ok) v = (v << 3) + (v << 1) + (z[i] - '0');
    }
    p[at + len] = 0;
    in.command = p; in.n = at; in.len = len;
    r = sql_atoi(&in, &got);
    if (ok && v <= 0x7fffffff) CHECK(r == LIBMSI_RESULT_SUCCESS && got == (int)v, "a number is what its digits say");
    else CHECK(r != LIBMSI_RESULT_SUCCESS, "what is no number, or too large, is refused");
#endif
    (void)n;
    REACH("end");
}
#ifndef VH_NATIVE
int main(void) { vh_main(); return 0; }
#endif
