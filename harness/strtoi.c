//@ prop C12
//@ srcs src/strtosize.c
//@ job name=base entry=h_any for=N:0..2 bound="every string of N arbitrary bytes in every base from -1 to 37" D=N={N} unwind={N+4}
//@ job name=any for=N:0..4/0..6 bound="every string of N arbitrary bytes, auto-detected base" D=N={N},BASE=0 unwind={N+4} w={N}
//@ job name=any8 entry=h_any for=N:3..4/0..6 bound="every string of N arbitrary bytes, base 8" D=N={N},BASE=8 unwind={N+4} w={N}
//@ job name=any10 entry=h_any for=N:3..4/0..6 bound="every string of N arbitrary bytes, base 10" D=N={N},BASE=10 unwind={N+4} w={N}
//@ job name=any16 entry=h_any for=N:3..4/0..6 bound="every string of N arbitrary bytes, base 16" D=N={N},BASE=16 unwind={N+4} w={N}
//@ job name=any36 entry=h_any for=N:3..4/0..6 bound="every string of N arbitrary bytes, base 36" D=N={N},BASE=36 unwind={N+4} w={N}
//@ job name=big10 entry=h_big for=N:19..22 bound="decimal strings of N digits: every first two and last three digits, the middle ones those of 2^64-1, then any byte; explicit base" D=N={N},B=10,A=0,SG=0,F=2,T=3 unwind={N+5}
//@ job name=big10auto entry=h_big for=N:20 bound="negative decimal strings of N digits: every first two and last three digits, the middle ones those of 2^64-1; auto-detected base" D=N={N},B=10,A=1,SG=1,F=2,T=3 unwind={N+5}
//@ job name=big16 entry=h_big for=N:16..19 bound="every hexadecimal string of N digits, then any byte" D=N={N},B=16,A=0,SG=0 unwind={N+6}
//@ job name=big16auto entry=h_big for=N:15..17 bound="every negative hexadecimal string of N digits with a 0x prefix, then any byte, auto-detected base" D=N={N},B=16,A=1,SG=1 unwind={N+6}
//@ job name=big8 entry=h_big for=N:21..23 bound="every octal string of N digits after a leading 0, then any byte, auto-detected base" D=N={N},B=8,A=1,SG=0 unwind={N+6}
//@ job name=big36 entry=h_big for=N:12..14 bound="base 36 strings of N digits: every first and last two digits, the middle ones those of 2^64-1, then any byte" D=N={N},B=36,A=0,SG=0,F=1,T=2 unwind={N+6}
//@ job name=big2 entry=h_big for=N:64..65 bound="every binary string of N digits, then any byte" D=N={N},B=2,A=0,SG=0 unwind={N+6}
//@ job name=step entry=h_step for=B:2,8,10,16,36 bound="the reference overflow test against 128-bit arithmetic, every value and digit" D=N=1,A=0,SG=0,B={B} unwind=3
#include "vh.h"
#include <errno.h>
#include <limits.h>
#include "utils/strutils.h"

static int dig(uint8_t c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return -1;
}
static int space(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }

#ifndef B
void h_any(void)
{
    uint8_t u[N + 3]; char s[N + 3];
    #ifdef BASE
    int base = BASE;
#else
    int base = (int)nd_small(0, 38) - 1;
#endif
    for (int i = 0; i < N; i++) { u[i] = nd_u8(); ASSUME(u[i]); s[i] = (char)u[i]; }
    for (int i = N; i < N + 3; i++) u[i] = s[i] = 0;
    const char *end = 0; uint64_t v = 77;
    int r = strtou64(s, nd_bool() ? &end : 0, base, &v);
    if (base < 0 || base == 1 || base > 36) { CHECK(r == -EINVAL, "an impossible base is -EINVAL"); return; }

    int p = 0, neg = 0, b = base, bad = 0, done = 0; uint64_t x = 0;
    for (int i = 0; i < N; i++) if (p == i && space(u[i])) p++;
    if (u[p] == '-' || u[p] == '+') { neg = u[p] == '-'; p++; }
    int blank = u[p] == 0;
    if ((b == 0 || b == 16) && u[p] == '0' && (u[p + 1] | 32) == 'x') { b = 16; p += 2; }
    else if (b == 0) b = u[p] == '0' ? 8 : 10;
    for (int i = 0; i < N; i++) {
        if (i < p || done || u[i] == 0) continue;
        int d = dig(u[i]);
        if (d < 0) { bad = done = 1; continue; }
        if (d >= b) { done = 1; continue; }
        x = x * (unsigned)b + (unsigned)d; p++;
    }
    if (bad) { CHECK(r == -EINVAL, "a character that is neither digit nor letter is -EINVAL"); return; }
    CHECK(r == 0, "a well formed number is accepted");
    CHECK(v == (neg ? 0 - (uint64_t)x : (uint64_t)x), "the value is the one denoted");
    if (end) CHECK(end == s + p, "the end pointer is the first character not converted");
    (void)blank;
    REACH("end");
}
#else
static int over(uint64_t x, unsigned d) { return x > UINT64_MAX / B || (x == UINT64_MAX / B && d > UINT64_MAX % B); }
static const uint8_t MAXD[24] =
#if B == 10
    { 1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5,9,9,9 };
#else
    { 3,32,5,14,1,1,2,6,4,28,16,28,15 };
#endif
void h_step(void)
{
    uint64_t x = nd_u64(); uint8_t d = nd_u8(); ASSUME(d < B);
    CHECK(over(x, d) == (((unsigned __int128)x * B + d) >> 64 != 0), "reference");
    REACH("fits");
}
void h_big(void)
{
    char s[N + 5]; int p = 0, at = -1;
    uint8_t d[N], last = nd_u8();
    if (SG) s[p++] = '-';
    if (A && B == 16) { s[p++] = '0'; s[p++] = 'x'; }
    if (A && B == 8) s[p++] = '0';
    int start = p; uint64_t x = 0;
    for (int i = 0; i < N; i++) {
#ifdef F
        if (i >= F && i < N - T) d[i] = MAXD[i];
        else
#endif
        { d[i] = nd_u8(); ASSUME(d[i] < B); }
        if (B == 10 && A && i == 0) ASSUME(d[i] != 0);
        s[p++] = d[i] < 10 ? '0' + d[i] : (d[i] & 1 ? 'a' : 'A') + d[i] - 10;
        if (at < 0) { if (over(x, d[i])) at = i; else x = x * B + d[i]; }
    }
    ASSUME(!(last >= '0' && last <= '9') && !(last >= 'a' && last <= 'z') && !(last >= 'A' && last <= 'Z'));
    s[p] = last; s[p + 1] = 0;
    uint64_t v = 0; const char *end = 0;
    int r = strtou64(s, &end, A ? 0 : B, &v);
    if (at >= 0) {
        CHECK(r == -ERANGE, "a value that does not fit is -ERANGE");
        CHECK(end == s + start + at, "the end pointer is the digit that does not fit");
#if N > 64 || (B > 2 && N > 21) || (B == 36 && N > 12) || (B == 16 && N > 16) || (B == 10 && N > 19)
        REACH("overflow");
#endif
        return;
    }
    #if !(B == 36 && N > 13) && !(B == 10 && N > 21)
    REACH("fits");
#endif
    if (last) { CHECK(r == -EINVAL, "an invalid character is -EINVAL"); return; }
    CHECK(r == 0, "a number that fits is accepted");
    CHECK(v == (SG ? 0 - x : x), "the value is the one denoted");
    CHECK(end == s + p, "the end pointer is the end of the string");
}
#endif
