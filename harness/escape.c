//@ prop C18
//@ srcs src/escape.c src/unescape.c src/gstring.c
//@ job name=round for=N:0..1/0..2 bound="every string of N arbitrary bytes, every set of two characters to escape, backslash or | as escape character" D=N={N},VH_INPLACE=16 unwind=18
//@ job name=near for=K:0..9 bound="strings of two characters: any byte, before or behind it one of n 0 backslash newline ; (set: newline ; 0x80)" D=N=2,K={K},VH_INPLACE=16 unwind=18
//@ job name=set entry=h_round for=N:1 bound="every one byte string, every set of two characters, every escape character that does not name an escape itself" D=N={N},ANYESC=1,VH_INPLACE=16 unwind=18
//@ job name=grow for=C:1..6 bound="a string of one octal, one named and one doubled escape in a block of capacity C+3: growth through several reallocations" D=N=3,C={C} unwind=16
//@ job name=unesc for=N:0..5/0..6 bound="every text of N arbitrary bytes: each escape sequence denotes its byte (values up to 255), everything else is copied" D=N={N} unwind={N+6}
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include "utils/gstring.h"
#ifdef VH_CBMC
#define NOFAIL(p) __CPROVER_assume((p) != 0)
#else
#define NOFAIL(p) ((void)(p))
#endif

static void mk(gstr *g, const uint8_t *s, int n, int cap)
{
    g->cap = (size_t)cap; g->len = (size_t)n;
    g->str = malloc((size_t)cap); NOFAIL(g->str);
    for (int i = 0; i < n; i++) g->str[i] = (char)s[i];
    g->str[n] = 0;
}
/* characters that mean something after an escape character */
static int named(uint8_t c) { return (c >= '0' && c <= '9') || c == 'a' || c == 'b' || c == 'e' || c == 'E' || c == 'f' || c == 'n' || c == 'r' || c == 't' || c == 'v' || c == 'x'; }

void h_round(void)
{
    uint8_t s[N + 1]; char set[3]; gstr g; int esc = nd_bool() ? '\\' : '|';
    for (int i = 0; i < N; i++) { s[i] = nd_u8(); ASSUME(s[i]); }
#ifdef ANYESC
    esc = nd_u8(); ASSUME(esc > 0 && esc < 128 && !named((uint8_t)esc));
#endif
    set[0] = (char)nd_u8(); set[1] = (char)nd_u8(); set[2] = 0;
    ASSUME(set[0] != (char)esc && set[1] != (char)esc);
    mk(&g, s, N, 8);
    CHECK(gstr_escape(&g, set, esc) == &g, "the string is returned");
    CHECK(g.len >= N && g.len <= 5 * N && g.cap > g.len && g.str[g.len] == 0, "length, capacity and terminator are consistent");
    ASSUME(g.len >= N && g.len <= 5 * N && g.cap > g.len);
    int ne = 0, alnum = named((uint8_t)set[0]) || named((uint8_t)set[1]);
    for (int i = 0; i < 5 * N; i++) {
        if (i >= (int)g.len) continue;
        char c = g.str[i];
        CHECK(c != 0, "no terminator inside");
        int behind = ne & 1;                      /* directly behind an unpaired escape character */
        if (c == (char)esc) { ne++; continue; }
        if (!behind && set[0] && !named((uint8_t)c) && !alnum) CHECK(c != set[0] && (!set[1] || c != set[1]) , "no character of the set remains unescaped");
        ne = 0;
    }
    (void)0;
    CHECK(gstr_unescape(&g, esc) == &g, "the string is returned");
    CHECK(g.len == N, "unescaping gives the original length");
    for (int i = 0; i < N; i++) CHECK(g.str[i] == (char)s[i], "unescaping gives the original text");
    CHECK(g.str[N] == 0, "the result is terminated");
    gstr_fini(&g);
    REACH("end");
}

#ifdef K
void h_near(void)
{
    static const char T[5] = { 'n', '0', '\\', '\n', ';' };
    uint8_t s[2]; gstr g;
    s[K / 5] = nd_u8(); ASSUME(s[K / 5]);
    s[1 - K / 5] = (uint8_t)T[K % 5];
    mk(&g, s, 2, 16);
    gstr_escape(&g, "\n;\x80", '\\');
    CHECK(g.len >= 2 && g.len <= 10 && g.cap > g.len && g.str[g.len] == 0, "length, capacity and terminator are consistent");
    ASSUME(g.len >= 2 && g.len <= 10 && g.cap > g.len);
    for (int i = 0; i < 10; i++) if (i < (int)g.len) CHECK(g.str[i] != '\n' && g.str[i] != ';' && g.str[i] != (char)0x80, "no character of the set remains unescaped");
    gstr_unescape(&g, '\\');
    CHECK(g.len == 2, "unescaping gives the original length");
    for (int i = 0; i < 2; i++) CHECK(g.str[i] == (char)s[i], "unescaping gives the original text");
    CHECK(g.str[2] == 0, "the result is terminated");
    gstr_fini(&g);
    REACH("end");
}
#endif
#ifdef C
void h_grow(void)
{
    uint8_t s[3] = { ';', '\n', '\\' }; gstr g;
    mk(&g, s, 3, C + 3);
    gstr_escape(&g, "\n;", '\\');
    CHECK(g.len == 9 && g.cap > 9, "the length is that of the escaped text");
    CHECK(vh_eq(g.str, "\\0073\\n\\\\", 10, 10), "the escaped text is exact");
    gstr_unescape(&g, '\\');
    CHECK(g.len == 3 && vh_eq(g.str, s, 3, 3) && g.str[3] == 0, "unescaping gives the original text");
    gstr_fini(&g);
    REACH("end");
}
#endif
static int hex(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

void h_unesc(void)
{
    uint8_t s[N + 5], o[N + 1]; int n = 0, p = 0, un = 0; gstr g;
    for (int i = 0; i < N; i++) { s[i] = nd_u8(); ASSUME(s[i]); }
    for (int i = N; i < N + 5; i++) s[i] = 0;
    mk(&g, s, N, N + 1);
    for (int k = 0; k < N; k++) {
        if (p >= N) break;
        uint8_t c = s[p++], v = c;
        if (c == '\\') {
            uint8_t e = s[p]; int d = 0;
            if (p >= N) v = '\\';                  /* nothing behind it: kept */
            else switch (p++, e) {
                case 'a': v = 7; break; case 'b': v = 8; break; case 't': v = 9; break; case 'n': v = 10; break;
                case 'v': v = 11; break; case 'f': v = 12; break; case 'r': v = 13; break; case 'e': case 'E': v = 27; break;
                case '0':
                    for (int i = 0; i < 3; i++) if (i == 0 ? 1 : d == i) if (s[p] >= '0' && s[p] <= '7') { v = (uint8_t)(d ? v * 8 : 0); if (d == 2 && s[p - 2] > '3') un = 1; v += s[p] - '0'; p++; d++; }
                    if (!d) un = 1;
                    break;
                case 'x':
                    for (int i = 0; i < 2; i++) if (d == i && hex(s[p]) >= 0) { v = (uint8_t)((d ? v * 16 : 0) + hex(s[p])); p++; d++; }
                    if (!d) un = 1;
                    break;
                case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': {
                    unsigned w = e - '0';
                    for (int i = 0; i < 2; i++) if (d == i && s[p] >= '0' && s[p] <= '9') { w = w * 10 + s[p] - '0'; p++; d++; }
                    if (w > 255) un = 1;
                    v = (uint8_t)w; break; }
                default: v = e; break;
            }
        }
        o[n++] = v;
    }
    CHECK(gstr_unescape(&g, '\\') == &g, "the string is returned");
    CHECK(g.cap > g.len && g.len <= N, "the result fits");
    if (!un) {
        CHECK(g.len == (size_t)n, "the length is the number of bytes denoted");
        for (int i = 0; i < N; i++) if (i < n) CHECK((uint8_t)g.str[i] == o[i], "every escape denotes its byte, other characters are kept");
        CHECK(g.str[n] == 0, "the result is terminated");
        REACH("end");
    }
    gstr_fini(&g);
}
