//@ prop C08
//@ srcs src/parse-ip.c
//@ default cc="-Dmemcpy=vh_memcpy"
//@ job name=addr for=N:0..11,15,16/0..17 bound="every string of N bytes as an address" D=N={N} unwind={N+5}
//@ job name=addr2 for=N:0..8/0..17 bound="every string of N bytes without a slash as an address with an optional mask" D=N={N} unwind={N+5}
//@ job name=mask for=N:0..4/0..8 bound="an address with every mask text of N bytes" D=N={N} unwind=10
//@ job name=dmask for=N:7..9,15/7..15 bound="an address with every dotted mask of N bytes with octets of 1..3 digits" D=N={N} unwind={N+3}
//@ job name=longmask for=N:10,20,21,32/7..40 bound="an address with every prefix length of N digits: zeros, or a wrap of 32 or 64 bits, then any two digits" D=N={N} unwind={N+4}
//@ job name=addrmask for=N:7,9,15/7..15 bound="every address text of N digits and dots in four octets of 1..3 digits, with a prefix length" D=N={N} unwind={N+5} solver=cadical
//@ job name=longaddr for=N:16,31,32,40/16..40 bound="every address text 1.2.3.4 followed by zeros up to N bytes and a zero or a dot, with and without mask" D=N={N} unwind={N+6}
//@ job name=print for=N:0..20 bound="every 32-bit address: printed into a buffer of N bytes and parsed back" D=N={N},VH_DIGITS=3 unwind=22 solver=cadical
//@ job name=cidr bound="every 32-bit mask; every prefix length both ways" unwind=34
#include "vh.h"
#include <string.h>
#include "utils/parse-ip.h"

/* byte by byte, so that known bytes stay known to the symbolic execution */
void *vh_memcpy(void *d, const void *s, size_t n)
{
    for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    return d;
}

/* reference: one pass over n bytes of text */
static int quad(const char *s, int n, uint32_t *v)
{
    uint32_t a = 0, z = 0; unsigned k = 0, dots = 0; int ok = 1;
    for (int i = 0; i < n; i++) {
        if (s[i] == '.') { if (k == 0 || z > 255) ok = 0; a = a << 8 | (z & 255); z = 0; k = 0; dots++; }
        else if (s[i] >= '0' && s[i] <= '9') { if (++k > 3) ok = 0; z = (z * 10 + (uint32_t)(s[i] - '0')) & 1023; }
        else ok = 0;
    }
    if (k == 0 || z > 255) ok = 0;
    *v = a << 8 | (z & 255);
    return ok && dots == 3;
}
static uint32_t mask_of(uint32_t z) { return z ? ~0u << (32 - z) : 0; }

#ifdef N
static void check_addr(const char *s, int n)
{
    uint32_t a = 0x5a5a5a5a, b = 0, m = 0x5a5a5a5a, c = 0x5a5a5a5a; int want = quad(s, n, &b);
    int r = parse_ipv4(&a, s);
    CHECK(!!r == want, "exactly dotted quads of octets 0..255 are accepted");
    if (r && want) { CHECK(a == b, "the denoted address is returned");
#if N >= 7 && N < 16
        REACH("valid");
#endif
    }
    REACH("addr");
}
static void check_addr2(const char *s, int n)
{
    uint32_t m = 0x5a5a5a5a, b = 0, c = 0x5a5a5a5a; int want = quad(s, n, &b);
    int slash = 0;
    for (int i = 0; i < n; i++) slash |= s[i] == '/';
    if (!slash) {
        int r = parse_ipv4_and_mask(&c, &m, s);
        CHECK(!!r == want, "an address without mask is accepted alike");
        if (r && want) CHECK(c == b && m == 0xffffffff, "an address without mask is a single host");
    }
    REACH("addr");
}
void h_addr(void)
{
    char s[N + 1];
    for (int i = 0; i < N; i++) { s[i] = (char)nd_u8(); ASSUME(s[i]); }
    s[N] = 0;
    check_addr(s, N);
}
void h_addr2(void)
{
    char s[N + 1];
    for (int i = 0; i < N; i++) { s[i] = (char)nd_u8(); ASSUME(s[i] && s[i] != '/'); }
    s[N] = 0;
    check_addr2(s, N);
}
static void longaddr(char *s)
{
    uint32_t a, m;
    s[N] = 0;
    CHECK(!parse_ipv4(&a, s) && !parse_ipv4_and_mask(&a, &m, s), "an overlong address is rejected");
    s[N] = '/'; s[N+1] = '8'; s[N+2] = 0;
    CHECK(!parse_ipv4_and_mask(&a, &m, s), "an overlong address is rejected");
    REACH("long");
}
void h_longaddr(void)
{
    char s[N + 3] = "1.2.3.4";
    for (int i = 7; i < N; i++) s[i] = '0';
    if (nd_bool()) longaddr(s); else { s[N - 1] = '.'; longaddr(s); }
}
static void check_mask(const char *t, int n)
{
    char s[10 + 48] = "1.2.3.4/";
    uint32_t a = 1, m = 1, z = 0, q = 0; int want = n > 0, dot = 0;
    memcpy(s + 8, t, (size_t)n + 1);
    for (int i = 0; i < n; i++) {
        dot |= t[i] == '.';
        if (t[i] >= '0' && t[i] <= '9') { z = z * 10 + (uint32_t)(t[i] - '0'); if (z > 99) z = 99; } else want = 0;
    }
    if (z > 32) want = 0;
    int r = parse_ipv4_and_mask(&a, &m, s);
    if (dot) {
        want = quad(t, n, &q);
        CHECK(!!r == want, "exactly dotted quads are accepted as a mask");
        if (r && want) CHECK(m == q && a == 0x01020304, "the denoted mask is returned");
    } else {
        if (n) CHECK(!!r == want, "exactly prefix lengths 0..32 are accepted");
        if (r && want) { CHECK(m == mask_of(z) && a == 0x01020304, "the denoted mask is returned");
#if N >= 1 && N < 7
            REACH("prefix");
#endif
        }
    }
    REACH("mask");
}
void h_mask(void)
{
    char t[N + 1];
    for (int i = 0; i < N; i++) { t[i] = (char)nd_u8(); ASSUME(t[i] && t[i] != '/'); }
    t[N] = 0;
    check_mask(t, N);
}
void h_longmask(void)
{
    char t[N + 1];
    const char *big = N == 20 ? "184467440737095516" : N == 10 ? "42949672" : "";
    for (int i = 0; i < N; i++) t[i] = *big ? *big++ : '0';
    for (int i = N - 2; i < N; i++) t[i] = (char)('0' + nd_small(0, 9));
    t[N] = 0;
#if N >= 32
    char s[10 + N] = "1.2.3.4/"; uint32_t a, m;
    memcpy(s + 8, t, N + 1);
    int r = parse_ipv4_and_mask(&a, &m, s);
    int v = 0; for (int i = 0; i < N; i++) { v = v * 10 + t[i] - '0'; if (v > 99) v = 99; }
    if (v > 32) CHECK(!r, "a prefix length above 32 is rejected");
    if (r) CHECK(m == mask_of((uint32_t)v), "the denoted mask is returned");
    REACH("mask");
#else
    check_mask(t, N);
#endif
}
static void am(int a, int b, int c, int d)
{
    char t[N + 4];
    if (a < 1 || a > 3 || b < 1 || b > 3 || c < 1 || c > 3 || d < 1 || d > 3 || a + b + c + d + 3 != N) return;
    for (int i = 0; i < N; i++) t[i] = i == a || i == a + 1 + b || i == a + b + c + 2 ? '.' : (char)('0' + nd_small(0, 9));
    t[N] = '/'; t[N + 1] = '8'; t[N + 2] = 0;
    uint32_t x = 1, m = 1, q = 0; int want = quad(t, N, &q);
    int r = parse_ipv4_and_mask(&x, &m, t);
    CHECK(!!r == want, "exactly dotted quads are accepted before a mask");
    if (r && want) CHECK(m == 0xff000000 && x == q, "the denoted address and mask are returned");
    REACH("addrmask");
}
void h_addrmask(void) { am(N - 6 < 3 ? N - 6 : 3, N - 8 < 1 ? 1 : N - 8 < 3 ? N - 8 : 3, N - 10 < 1 ? 1 : N - 10 < 3 ? N - 10 : 3, N - 12 < 1 ? 1 : N - 12); }
static void dm(int a, int b, int c, int d)
{
    char t[N + 1];
    if (a < 1 || a > 3 || b < 1 || b > 3 || c < 1 || c > 3 || d < 1 || d > 3 || a + b + c + d + 3 != N) return;
    for (int i = 0; i < N; i++) t[i] = i == a || i == a + 1 + b || i == a + b + c + 2 ? '.' : (char)('0' + nd_small(0, 9));
    t[N] = 0;
    check_mask(t, N);
}
void h_dmask(void)
{
    /* the octets' lengths */
    unsigned c = nd_u8();
    if (c == 0) dm(1, (N - 6) / 3 + 1, (N - 5) / 3, N - 4 - (N - 6) / 3 - 1 - (N - 5) / 3);
    else if (c == 1) dm(3, 1, 1, N - 8);
    else if (c == 2) dm(1, 1, N - 8, 3);
    else if (c == 3) dm(3, 3, 3, N - 12);
    else if (c == 4) dm(1, 1, 1, N - 6);
    else if (c == 5) dm(2, N - 8, 1, 2);
}
#endif
#ifdef N
void h_print(void)
{
    uint32_t a = nd_u32(), z = 0; char b[24];
    memset(b, 0x7e, sizeof b);
    CHECK(str_ipv4(b, N, a) == b, "the buffer is returned");
    for (size_t i = N; i < 24; i++) CHECK(b[i] == 0x7e, "nothing past the buffer is written");
#if N >= 16
    CHECK(parse_ipv4(&z, b) && z == a, "printing and parsing gives the address back");
#elif N > 0
    size_t n = 0; while (n < N && b[n]) n++; CHECK(n < N, "the text is terminated inside the buffer");
#endif
    REACH("print");
}
#endif
void h_cidr(void)
{
    uint32_t m = nd_u32(), c = 77, z = nd_small(0, 32), n = 0;
    int ok = ((~m + 1) & ~m) == 0;                     /* ones, then zeros */
    for (int i = 0; i < 32; i++) n += m >> i & 1;
    CHECK(!!mask_to_cidr4(m, &c) == ok, "exactly masks of leading ones have a prefix length");
    if (ok) CHECK(c == n, "the prefix length is the number of ones");
    CHECK(mask_to_cidr4(mask_of(z), &c) && c == z, "every prefix length converts back");
    REACH("cidr");
}
