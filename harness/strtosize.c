//@ prop C13
//@ srcs src/strtosize.c
//@ job name=suffix for=N:1..3,8,15,16/1..16 bound="every value of N hexadecimal digits, every two suffix characters and one more" D=N={N} unwind={N+8} w={N}
//@ job name=dec for=N:1..4/1..8 bound="every N digit decimal number, every two suffix characters and one more" D=N={N} unwind={N+6}
//@ job name=bare for=N:0..3/0..4 bound="every string of N arbitrary bytes, base 10 or auto-detected: refused exactly when the number or its suffix is malformed" D=N={N} unwind={N+4}
#include "vh.h"
#include <errno.h>
#include "utils/strutils.h"

static int unit(uint8_t c)
{
    switch (c) { case 0: case 'B': return 0; case 'k': case 'K': return 10; case 'M': return 20; case 'G': return 30;
                 case 'T': return 40; case 'P': return 50; case 'E': return 60; }
    return -1;
}
static int space(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }

static int want(uint64_t x, const uint8_t *t, uint64_t *res)   /* t: suffix, 3 characters and a NUL */
{
    int sh = unit(t[0]);
    if (sh < 0) return -EINVAL;
    if (t[0]) {
        int p = 1;
        if (t[0] != 'B') { if (t[1] == 'B') p = 2; else if (t[1] == 'b') { p = 2; sh -= 3; } }
        else if (t[1] == 'b') return 1;          /* unspecified */
        else if (t[1] == 'B') return 1;
        if (t[p] && !space(t[p])) return -EINVAL;
    }
    if ((x << sh) >> sh != x) return -ERANGE;
    *res = x << sh;
    return 0;
}

static void run(char *s, int base, uint64_t x, const uint8_t *t)
{
    uint64_t res = 0, v = 99; int w = want(x, t, &res);
    int r = strtosize(s, base, &v);
    if (w == 1) return;
    CHECK(r == w, "accepted exactly when well formed and in range, with the documented error otherwise");
    if (w == 0) CHECK(v == res, "the value is number times unit");
    REACH("end");
}
void h_suffix(void)
{
    char s[N + 6]; uint8_t t[4]; uint64_t x = 0; int p = 0;
    s[p++] = '0'; s[p++] = 'x';
    for (int i = 0; i < N; i++) { uint8_t d = nd_u8(); ASSUME(d < 16); x = x << 4 | d; s[p++] = d < 10 ? '0' + d : 'A' + d - 10; }
    t[3] = 0;
    for (int i = 0; i < 3; i++) { t[i] = nd_u8(); if (i && !t[i-1]) ASSUME(!t[i]); s[p++] = (char)t[i]; }
    s[p] = 0;
    ASSUME(!(t[0] >= '0' && t[0] <= '9') && !((t[0] | 32) >= 'a' && (t[0] | 32) <= 'f'));
    run(s, nd_bool() ? 16 : 0, x, t);
}
void h_dec(void)
{
    char s[N + 6]; uint8_t t[4]; uint64_t x = 0; int p = 0;
    for (int i = 0; i < N; i++) { uint8_t d = nd_u8(); ASSUME(d < 10); if (!i) ASSUME(d); x = x * 10 + d; s[p++] = '0' + d; }
    t[3] = 0;
    for (int i = 0; i < 3; i++) { t[i] = nd_u8(); if (i && !t[i-1]) ASSUME(!t[i]); s[p++] = (char)t[i]; }
    s[p] = 0;
    ASSUME(!(t[0] >= '0' && t[0] <= '9'));
    run(s, nd_bool() ? 10 : 0, x, t);
}
void h_bare(void)
{
    char s[N + 1]; const char *end = 0; uint64_t x = 0, v = 0, res;
    int base = nd_bool() ? 10 : 0;
    for (int i = 0; i < N; i++) s[i] = (char)nd_u8();
    s[N] = 0;
    int r0 = strtou64(s, &end, base, &x), r = strtosize(s, base, &v);
    if (r0) { CHECK(r == r0, "a malformed number is refused like the plain conversion does"); return; }
    uint8_t t[4] = { 0, 0, 0, 0 };
    int off = (int)(end - s);
    for (int i = 0, z = 0; i < 3; i++) { if (!z && off + i < N) t[i] = (uint8_t)s[off + i]; if (!t[i]) z = 1; }
    int w = want(x, t, &res);
    if (w == 1) return;
    CHECK(r == w, "accepted exactly when well formed and in range");
    if (!w) CHECK(v == res, "the value is number times unit");
    REACH("end");
}
