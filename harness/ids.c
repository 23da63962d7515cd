//@ prop C03
//@ srcs src/str2hex.c
//@ job name=str2hex for=N:0..7/0..12 bound="every string of N arbitrary non-NUL bytes, every buffer size <= N/2+2, tail-aligned" D=N={N} unwind={N+3}
//@ job name=str2hex_long bound="every string of N hex digits and every position of one arbitrary byte" D=N=24 tD=N=64 unwind=30 tunwind=70
#include "vh.h"
#include <string.h>
#include <errno.h>
#include <sys/types.h>
#include "utils/utils.h"
#include "utils/strutils.h"

static int hexv(uint8_t c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
#ifndef N
#define N 0
#endif

static void check_hex(const uint8_t *str, int n, uint8_t *out, size_t ol, const uint8_t *orig, uint8_t *guard)
{
    int bad = 0;
    for (int i = 0; i < n; i++) if (hexv(str[i]) < 0) bad = 1;
    ssize_t r = str2hex(out, ol, (const char *)str);
    if (ol < (size_t)(n + 1) / 2) {
        CHECK(r == -ENOMEM || (bad && r == -EINVAL), "a buffer that is too small is refused");
        return;
    }
    if (bad) { CHECK(r == -EINVAL, "any other character is refused"); return; }
    CHECK(r == (n + 1) / 2, "one byte per two digits, a trailing half byte counts");
    ASSUME(r == (n + 1) / 2);
    for (int i = 0; i < n; i += 2)
        CHECK(out[i/2] == (uint8_t)(hexv(str[i]) * 16 + (i + 1 < n ? hexv(str[i+1]) : 0)), "each byte is the one its digits denote");
}

void h_str2hex(void)
{
    uint8_t buf[N/2 + 3], s[N + 1];
    for (int i = 0; i < N; i++) { s[i] = nd_u8(); ASSUME(s[i] != 0); }
    s[N] = 0;
    size_t ol = nd_small(0, N/2 + 2);
    uint8_t *out = buf + sizeof buf - ol;
    buf[sizeof buf - ol - 1] = 0xa5;
    check_hex(s, N, out, ol, 0, 0);
    CHECK(buf[sizeof buf - ol - 1] == 0xa5, "nothing is written before the buffer");
    REACH("end");
}

void h_str2hex_long(void)
{
    uint8_t buf[N/2 + 1], s[N + 1];
    unsigned k = nd_small(0, N - 1);
    for (int i = 0; i < N; i++) { s[i] = nd_u8(); ASSUME(s[i] != 0); ASSUME(hexv(s[i]) >= 0 || i == k); }
    s[N] = 0;
    check_hex(s, N, buf + 1, N/2, 0, 0);
    REACH("end");
}
