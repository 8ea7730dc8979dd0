/* Stream names: encode_streamname / decode_streamname / utf2mime / mime2utf */
#define VH_KNOWN_STRLEN
#include "vh.h"
#include "models/glib.h"
#include "libmsi/table.c"

static bool is_cont(unsigned char c) { return c >= 0x80 && c < 0xc0; }

/* well-formed UTF-8 whose characters avoid U+3800..U+4840, the range the
 * encoding uses for itself */
static bool name_ok(const unsigned char *s, unsigned n)
{
    unsigned i = 0;
    while (i < n) {
        unsigned char c = s[i];
        if (c == 0) return false;
        if (c < 0x80) { i++; continue; }
        if (c < 0xc2) return false;
        if (c < 0xe0) {
            if (i + 1 >= n || !is_cont(s[i + 1])) return false;
            i += 2;
        } else if (c < 0xf0) {
            if (i + 2 >= n || !is_cont(s[i + 1]) || !is_cont(s[i + 2])) return false;
            if (c == 0xe3 && s[i + 1] >= 0xa0) return false;
            if (c == 0xe4 && (s[i + 1] < 0xa1 || (s[i + 1] == 0xa1 && s[i + 2] == 0x80))) return false;
            if (c == 0xe0 && s[i + 1] < 0xa0) return false;
            i += 3;
        } else {
            if (c > 0xf4) return false;
            if (i + 3 >= n || !is_cont(s[i + 1]) || !is_cont(s[i + 2]) || !is_cont(s[i + 3])) return false;
            i += 4;
        }
    }
    return true;
}

void vh_main(void)
{
#ifdef U_DIGITS
    int x = nd_int();
    int m = utf2mime(x);
    CHECK(m >= -1 && m < 64, "every character has at most one of 64 codes");
    if (m >= 0) { CHECK(mime2utf(m) == x, "decoding the code of a character gives the character back"); REACH("encodable"); }
    unsigned y = nd_u32();
    ASSUME(y < 64);
    CHECK(utf2mime(mime2utf(y)) == (int)y, "every code is the code of the character it decodes to");
    REACH("digits");
#elif defined(U_LONG)
    /* long names: letters and digits in fixed places, and the length limit of
     * table names (29 packed characters) */
    unsigned n, i, t;
    for (t = 0; t < 2; t++)
        for (n = 8; n <= 64; n++) {
            if (n > 8 && n < 29 || n > 31 && n < 57) continue;
            char *s = malloc(n + 1), *e, *d;
            for (i = 0; i < n; i++) s[i] = "Ab0._zZ9q"[(i * 7 + n) % 9];
            s[n] = 0;
            e = encode_streamname(t, s);
            if (t && (n + 1) / 2 > 29) { CHECK(!e, "an overlong table name is refused"); continue; }
            CHECK(e != NULL, "a name within the limit is encodable");
            d = decode_streamname(e + (t ? 3 : 0));
            for (i = 0; i <= n; i++) CHECK(d[i] == s[i], "a long name decodes to itself");
            if (n == 58) REACH("long");
        }
#else
    /* an exact-size, NUL-terminated buffer: reading past the end is an error */
    unsigned n = VN;
    char *s = malloc(n + 1);
    unsigned i;
    for (i = 0; i < BOUND; i++) if (i < n) s[i] = nd_u8();
    s[n] = 0;
#ifdef U_TABLE
    bool tab = true;
#else
    bool tab = false;
#endif
    ASSUME(name_ok((unsigned char *)s, n));
    VH_KNOWN(s, n);
    char *e = encode_streamname(tab, s);
    if (!e) {
        CHECK(tab && n >= 30, "a short name is always encodable");
        return;
    }
    CHECK(!tab || ((unsigned char)e[0] == 0xe4 && (unsigned char)e[1] == 0xa1 && (unsigned char)e[2] == 0x80),
          "a table stream name carries the table marker");
    char *d = decode_streamname(e + (tab ? 3 : 0));
    CHECK(d != NULL, "an encoded name is decodable");
    for (i = 0; i <= BOUND; i++)
        if (i <= n) CHECK(d[i] == s[i], "decoding an encoded name gives the name back");
    if (n > 0) REACH("nonempty name");
#endif
}
#ifndef VH_NATIVE
int main(void) { vh_main(); return 0; }
#endif
