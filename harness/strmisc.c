//@ prop C15
//@ srcs src/strcopy.c src/strtrim.c src/strunquote.c src/dirname.c src/strlcpy.c
//@ default cc="-Ddirname=pl_dirname"
//@ job name=copy for=N:0..6/0..12 bound="every string of N arbitrary bytes, every buffer size 1..N+2" D=N={N} unwind={N+4}
//@ job name=lcpy for=N:0..6/0..12 bound="strlcpy: every string of N bytes, every buffer size 0..N+4" D=N={N} unwind={N+8}
//@ job name=trim for=N:0..6/0..10 bound="every string of N arbitrary bytes" D=N={N} unwind={N+3}
//@ job name=unquote for=N:0..6/0..12 bound="every string of N arbitrary bytes" D=N={N} unwind={N+3}
//@ job name=dirname for=N:0..7/0..10 bound="every path of N arbitrary bytes, every buffer size 0..N+3" D=N={N} unwind={N+4}
#include "vh.h"
#include <string.h>
#include <sys/types.h>
#include "utils/strutils.h"
extern ssize_t strcopy(char *dst, size_t sz, const char *src);
extern const char *dirname(char *buf, size_t bsize, const char *path);
extern size_t strlcpy(char *, const char *, size_t);
static int space(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
static void str(char *s, int n) { for (int i = 0; i < N; i++) { s[i] = (char)nd_u8(); ASSUME(s[i]); } s[n] = 0; }

void h_copy(void)
{
    char s[N + 1], d[N + 4]; int sz = (int)nd_small(1, N + 2);
    str(s, N); memset(d, 0x55, sizeof d);
    ssize_t r = strcopy(d + 1, (size_t)sz, s);
    CHECK(d[0] == 0x55, "nothing is written before the buffer");
    for (int i = 0; i < N + 3; i++) if (i >= sz) CHECK(d[1 + i] == 0x55, "nothing is written past the stated size");
    if (N < sz) {
        CHECK(r == N, "the length is returned when the string fits");
        for (int i = 0; i <= N; i++) CHECK(d[1 + i] == s[i], "the copy is exact and terminated");
        REACH("fits");
    } else {
        CHECK(r < 0, "an error is returned when the string does not fit");
        for (int i = 0; i < N; i++) if (i < sz - 1) CHECK(d[1 + i] == s[i], "the buffer is filled with the leading characters");
        CHECK(d[sz] == 0, "the buffer is terminated");
#if N > 0
        REACH("truncated");
#endif
    }
}

void h_lcpy(void)
{
    char s[N + 1], d[N + 6]; int sz = (int)nd_small(0, N + 4), pre = 0;
    str(s, N); memset(d, 0x55, sizeof d);
    char old[N + 6]; memcpy(old, d, sizeof d);
    size_t r = strlcpy(d + 1, s, (size_t)sz);
    CHECK(r == (size_t)(pre + N), "the needed length is returned");
    for (int i = 0; i < N + 6; i++) if (i < 1 + pre || i > sz) CHECK(d[i] == old[i], "nothing outside the free part of the buffer is written");
    for (int i = 0; i < N; i++) if (pre + i < sz - 1) CHECK(d[1 + pre + i] == s[i], "the leading characters are copied");
    if (sz) CHECK(d[1 + (pre + N < sz - 1 ? pre + N : sz - 1)] == 0, "the result is terminated");
    REACH("end");
}

void h_trim(void)
{
    char s[N + 1], o[N + 1]; int a = 0, b = N;
    str(s, N); memcpy(o, s, sizeof s);
    for (int i = 0; i < N; i++) if (a == i && space((uint8_t)o[i])) a++;
    for (int i = N; i > 0; i--) if (b == i && b > a && space((uint8_t)o[i - 1])) b--;
    char *r = strtrim(s);
    CHECK(r >= s && r <= s + N, "the result lies in the caller's string");
    ASSUME(r >= s && r <= s + N);
    int off = (int)(r - s);
    CHECK(off + (b - a) <= N, "the result lies in the caller's string"); ASSUME(off + (b - a) <= N);
    for (int i = 0; i < N; i++) if (i < b - a) CHECK(s[off + i] == o[a + i], "exactly the inner characters remain");
    CHECK(s[off + (b - a)] == 0, "trailing white space is gone");
    REACH("end");
}

void h_unquote(void)
{
    char s[N + 1], o[N + 1], *p = 0;
    str(s, N); memcpy(o, s, sizeof s);
    int r = strunquote(s, nd_bool() ? &p : 0);
    if (o[0] != '"' && o[0] != '\'') {
        CHECK(r == 0, "no quote: 0"); CHECK(!memcmp(s, o, sizeof s), "no quote: untouched"); REACH("plain"); return;
    }
#if N > 0
    if (N < 2 || o[N - 1] != o[0]) {
        CHECK(r < 0, "no ending quote: error"); CHECK(!memcmp(s, o, sizeof s), "no ending quote: untouched"); REACH("open"); return;
    }
#if N > 1
    CHECK(r == o[0], "the removed quote is returned");
    if (p) {
        CHECK(p == s + 1, "the inner string is returned");
        for (int i = 1; i < N - 1; i++) CHECK(s[i] == o[i], "the inner characters are kept");
        CHECK(s[N - 1] == 0, "the closing quote is removed");
        REACH("quoted");
    }
#endif
#endif
}

void h_dirname(void)
{
    char s[N + 1], b[N + 5]; int sz = (int)nd_small(0, N + 3);
    str(s, N); memset(b, 0x55, sizeof b);
    const char *r = dirname(b + 1, (size_t)sz, s);
    CHECK(b[0] == 0x55, "nothing is written before the buffer");
    for (int i = 0; i < N + 4; i++) if (i >= sz) CHECK(b[1 + i] == 0x55, "nothing is written past the stated size");
    if (sz < N + 1) { CHECK(!r, "a buffer that cannot hold the path is refused"); return; }
    if (N == 0 && sz < 2) { CHECK(!r, "a buffer that cannot hold \".\" is refused"); return; }
    CHECK(r == b + 1, "the caller's buffer is returned");
    int e = N, slash = 0;
    for (int i = N; i > 0; i--) if (e == i && s[i - 1] == '/') e--;          /* trailing slashes */
    int base = e;
    for (int i = N; i > 0; i--) if (base == i && s[i - 1] != '/') base--;    /* last component */
    slash = base > 0 || (N > 0 && s[0] == '/');
    for (int i = N; i > 0; i--) if (base == i && s[i - 1] == '/') base--;    /* slashes before it */
    if (base == 0) {
        CHECK(b[1] == (slash ? '/' : '.') && b[2] == 0, "no directory part: \".\", or \"/\" for a path under the root");
        REACH("root");
    } else {
        for (int i = 0; i < N; i++) if (i < base) CHECK(b[1 + i] == s[i], "everything before the last separator is kept");
        CHECK(b[1 + base] == 0, "the last component and its separator are removed");
#if N > 2
        REACH("dir");
#endif
    }
}
