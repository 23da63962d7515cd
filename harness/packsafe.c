//@ prop C07
//@ srcs src/pack.c
//@ default flags="--max-field-sensitivity-array-size 256 --object-bits 12" cc="-D__NO_CTYPE -Dmemcpy=vh_memcpy -Dmemset=vh_memset -Dcalloc=vh_calloc -Dfree=vh_free" subst="\b(le|be)_packers\[\]@@\1_packers['z' + 1]"
//@ job name=tpl for=C:0..18 bound="every template of up to 2 characters over 19 representative characters starting with number C, packing into and unpacking from buffers of 0..9 bytes" D=C={C},LEN=2 unwind=22
//@ job name=tpl3 entry=h_tpl for=C:0..9 tier=thorough timeout=900 bound="every template of up to 3 characters over 10 representative characters starting with number C" D=C={C},LEN=3 unwind=22
//@ job name=anytype for=G:0..7 bound="every byte from 32*G that is no type, plain and counted, in a buffer of 8 bytes" D=S=8,G={G} unwind=34
//@ job name=count for=K:0..9 bound="repeat counts around every power of two up to 2^64, every type" D=K={K} unwind=26
//@ job name=content for=S:0..9 bound="Unpack of every content of S bytes for *T of every type and for Z" D=S={S} unwind=16
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "utils/pack.h"

void *vh_memcpy(void *d, const void *s, size_t n)
{
    for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
void *vh_memset(void *d, int c, size_t n)
{
    for (size_t i = 0; i < n; i++) ((char *)d)[i] = (char)c;
    return d;
}
/* the code's allocations: typed by their element size, ending where the request ends */
#define POOL(t, w) static t m##w##a[16], m##w##b[16], m##w##c[16], m##w##d[16]; static int i##w; \
    static void *get##w(size_t n) { int i = i##w++; return (i == 0 ? m##w##a : i == 1 ? m##w##b : i == 2 ? m##w##c : m##w##d) + 16 - n; }
POOL(uint8_t, 1)
POOL(uint16_t, 2)
POOL(uint32_t, 4)
POOL(uint64_t, 8)
void *vh_calloc(size_t n, size_t sz)
{
#ifdef VH_CBMC
    CHECK(n <= 16, "allocations are as small as the data");
    return sz == 1 ? get1(n) : sz == 2 ? get2(n) : sz == 4 ? get4(n) : get8(n);
#else
#undef calloc
    return calloc(n, sz);
#endif
}
void vh_free(void *p) { (void)p; }

static int width(char t)
{
    switch (t) { case 'b': case 'B': return 1; case 's': case 'S': return 2; case 'i': case 'I': case 'f': return 4;
                 case 'l': case 'L': case 'd': case 'D': return 8; }
    return 0;
}
static const char types[] = "bBsSiIlLfdDzZx";
#define CAP 16
static uint8_t buf[CAP];                /* a buffer of n bytes ends where this array ends */
static uint8_t s8[16] = "ab"; static uint16_t s16[16]; static uint32_t s32[16]; static uint64_t s64[16];
static uint8_t o8[16]; static uint16_t o16[16]; static uint32_t o32[16]; static uint64_t o64[16]; static void *op[4]; static uint32_t oc[4];
enum { P, U, F };

struct plan { int k; int kind[4]; void *v[4]; void *o[4]; int ok; size_t need; };
static void slot(struct plan *p, int kind, void *v, void *o)
{
    if (p->k < 4) { p->kind[p->k] = kind; p->v[p->k] = v; p->o[p->k] = o; }
    p->k++;
}
/* what the template asks for; a * counts 2 when packing and what the content says when unpacking */
static void parse(struct plan *p, const char *f, int big, int unpack, const uint8_t *b, size_t n)
{
    int have = 0; uint32_t cnt = 0;
    p->k = 0; p->ok = 1; p->need = 0;
    for (int i = 0; i < 4; i++) { p->kind[i] = P; p->v[i] = 0; p->o[i] = 0; }
    if (*f == '<' || *f == '>') f++;
    for (; *f; f++) {
        if (*f == ' ') continue;
        if (*f == '*') {
            if (have) { p->ok = 0; return; }
            slot(p, U, 0, &oc[p->k]);
            cnt = 2;
            if (unpack) {
                if (n - p->need < 4) { p->ok = 0; return; }
                const uint8_t *q = b + p->need;
                cnt = big ? (uint32_t)q[0] << 24 | (uint32_t)q[1] << 16 | (uint32_t)q[2] << 8 | q[3]
                          : (uint32_t)q[3] << 24 | (uint32_t)q[2] << 16 | (uint32_t)q[1] << 8 | q[0];
            }
            p->need += 4; have = 1;
            if (p->need > n) { p->ok = 0; return; }
            continue;
        }
        uint32_t num = 0;
        while (*f >= '0' && *f <= '9') num = num * 10 + (uint32_t)(*f++ - '0');
        if (num && have) { p->ok = 0; return; }
        int w = width(*f), z = *f == 'z' || *f == 'Z';
        if (!w && !z && *f != 'x') { p->ok = 0; return; }
        if (*f != 'x') {
            void *o = have || z ? (void *)&op[p->k & 3] : w == 1 ? (void *)o8 : w == 2 ? (void *)o16 : w == 4 ? (void *)o32 : (void *)o64;
            if (!have && num <= 1 && (*f == 'f' || *f == 'd')) slot(p, F, 0, o);
            else slot(p, P, !have && num <= 1 && w ? (void *)7 : w == 2 ? (void *)s16 : w == 4 ? (void *)s32 : w == 8 ? (void *)s64 : (void *)s8, o);
        }
        if (have) num = cnt;
        else if (!num) num = z ? 0 : 1;
        if (z && !num && !have) {
            if (!unpack) num = 3;
            else { size_t at = p->need; while (at < n && b[at]) at++; if (at == n) { p->ok = 0; return; } num = (uint32_t)(at - p->need) + 1; }
        }
        if (num > n || (size_t)num * (w ? (size_t)w : 1) > n - p->need) { p->ok = 0; return; }
        p->need += (size_t)num * (w ? (size_t)w : 1);
        have = 0;
    }
    if (have) p->ok = 0;
}
#define A0(i) p->v[i]
#define A1(i) (uint32_t)2
#define A2(i) 1.5
#define CASE(a, c, d) case a * 9 + c * 3 + d: return Pack(b, n, f, A##a(0), A##c(1), A##d(2), p->v[3]);
#define ROW(a, c) CASE(a, c, 0) CASE(a, c, 1) CASE(a, c, 2)
static ssize_t pk(uint8_t *b, size_t n, const char *f, struct plan *p)
{
    switch (p->kind[0] * 9 + p->kind[1] * 3 + p->kind[2]) {
    ROW(0, 0) ROW(0, 1) ROW(0, 2) ROW(1, 0) ROW(1, 1) ROW(1, 2) ROW(2, 0) ROW(2, 1) ROW(2, 2)
    }
    return -1;
}
static void fresh(void) { i1 = i2 = i4 = i8 = 0; }
static void pack1(const char *f, size_t n)
{
    struct plan p;
    for (int i = 0; i < CAP; i++) buf[i] = 0x5a;
    parse(&p, f, *f == '>', 0, 0, n);
    ssize_t r = pk(buf + CAP - n, n, f, &p);
    CHECK(p.ok ? r == (ssize_t)p.need : r < 0, "Pack fails exactly when the template is malformed or the buffer too short");
    for (size_t i = 0; i < CAP - n; i++) CHECK(buf[i] == 0x5a, "nothing before the buffer is written");
    REACH("pack");
}
static void unpack1(const char *f, size_t n)
{
    struct plan p; uint8_t *b = buf + CAP - n; int big = *f == '>';
    for (size_t i = 0; i < n; i++) b[i] = (i & 7) == (big ? 3 : 0) ? 2 : 0;
    parse(&p, f, big, 1, b, n);
    fresh();
    ssize_t r = Unpack(b, n, f, p.o[0], p.o[1], p.o[2], p.o[3]);
    CHECK(p.ok ? r == (ssize_t)p.need : r < 0, "Unpack fails exactly when the template is malformed or the buffer too short");
    if (p.k > 0) CHECK(Unpack(b, n, f, (void *)0, (void *)0, (void *)0, (void *)0) < 0, "a null argument is refused");
    REACH("unpack");
}
#ifdef C
static void both(const char *f)
{
    unsigned c = nd_u8();
    if (c == 0) pack1(f, 0); else if (c == 1) pack1(f, 3); else if (c == 2) pack1(f, 6); else if (c == 3) pack1(f, 9);
    else if (c == 4) unpack1(f, 0); else if (c == 5) unpack1(f, 3); else if (c == 6) unpack1(f, 5); else if (c == 7) unpack1(f, 9);
}
#if LEN > 2
#define NREP 10
static const char reps[] = "sIzxd*2 >?";
#else
#define NREP 19
static const char reps[] = "bsILzxfd*0129 <>?{\200";
#endif
static void step(char *f, int d)
{
    f[d] = 0;
    if (nd_bool()) { both(f); return; }
    if (d >= LEN) return;
    unsigned k = nd_u8();
    for (unsigned i = 0; i < NREP; i++)
        if (k == i) { f[d] = reps[i]; step(f, d + 1); return; }
}
void h_tpl(void) { char f[LEN + 1]; f[0] = reps[C]; step(f, 1); }
#endif
#ifdef G
static void unknown1(const char *f)
{
    CHECK(Unpack(buf + CAP - S, S, f, &op[0], &op[1]) < 0, "an unknown type is an error");
    CHECK(Pack(buf + CAP - S, S, f, (void *)s8, (void *)s8) < 0, "an unknown type is an error");
    REACH("type");
}
static void unknown(char c)
{
    for (int i = 0; i < 14; i++) if (types[i] == c) return;
    if (c == '*' || c == '<' || c == '>' || (c >= '0' && c <= '9') || c == ' ' || (c >= 9 && c <= 13)) return;
    char f[4] = { c, 0, 0, 0 }, g[4] = { '3', c, 0, 0 };
    if (nd_bool()) unknown1(f); else unknown1(g);
}
void h_anytype(void) { unsigned k = nd_u8(); for (unsigned i = G ? G * 32 : 1; i < G * 32 + 32; i++) if (k == i) { unknown((char)i); return; } }
#endif
#ifdef S
/* Unpack of whatever the buffer holds */
static void cont(const char *f, int star, int w, int big)
{
    uint8_t *b = buf + CAP - S; uint32_t cnt = 0;
    for (int i = 0; i < S; i++) b[i] = nd_u8();
    fresh(); oc[0] = 99;
    ssize_t r = star ? Unpack(b, S, f, &oc[0], &op[0]) : Unpack(b, S, f, &op[0]);
    if (!star) {
        int at = 0; while (at < S && b[at]) at++;
        CHECK(at == S ? r < 0 : r == at + 1, "a string ends at its terminator, inside the buffer");
    } else if (S < 4) CHECK(r < 0, "a count needs four bytes");
    else {
        for (int i = 0; i < 4; i++) cnt |= (uint32_t)b[i] << 8 * (big ? 3 - i : i);
        CHECK((uint64_t)cnt * w <= S - 4 ? r == (ssize_t)(4 + cnt * w) : r < 0, "a count larger than the data is refused");
    }
    REACH("content");
}
void h_content(void)
{
    unsigned c = nd_u8();
    if (c == 0) cont("*B", 1, 1, 0); else if (c == 1) cont(">*s", 1, 2, 1); else if (c == 2) cont("*I", 1, 4, 0);
    else if (c == 3) cont(">*L", 1, 8, 1); else if (c == 4) cont("*Z", 1, 1, 0); else if (c == 5) cont("Z", 0, 1, 0);
    else if (c == 6) cont("*S", 1, 2, 0); else if (c == 7) cont(">*i", 1, 4, 1); else if (c == 8) cont("*l", 1, 8, 0);
    else if (c == 9) cont(">*x", 1, 1, 1);
}
#endif
#ifdef K
static const char *const counts[] = { "10", "17", "256", "4294967295", "4294967297", "2305843009213693953", "4611686018427387905", "9223372036854775809",
                                      "18446744073709551615", "18446744073709551617" };
static void cnt(char t)
{
    char f[26]; int n = 0;
    for (const char *q = counts[K]; *q; q++) f[n++] = *q;
    f[n++] = t; f[n] = 0;
    for (int i = 0; i < CAP; i++) buf[i] = 0x5a;
    void *o = width(t) == 1 ? (void *)o8 : width(t) == 2 ? (void *)o16 : width(t) == 4 ? (void *)o32 : width(t) == 8 ? (void *)o64 : (void *)op;
    void *v = width(t) == 2 ? (void *)s16 : width(t) == 4 ? (void *)s32 : width(t) == 8 ? (void *)s64 : (void *)s8;
    if (nd_bool()) {
        CHECK(Pack(buf + 7, 9, f, v, v) < 0, "an oversized count is refused");
        for (int i = 0; i < CAP; i++) CHECK(buf[i] == 0x5a, "nothing is written");
    } else CHECK(Unpack(buf + 7, 9, f, o, o) < 0, "an oversized count is refused");
    REACH("count");
}
void h_count(void) { unsigned k = nd_u8(); for (unsigned i = 0; i < 14; i++) if (k == i) { cnt(types[i]); return; } }
#endif
