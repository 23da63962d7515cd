//@ prop C06
//@ srcs src/pack.c
//@ default flags="--max-field-sensitivity-array-size 256 --object-bits 12" cc="-D__NO_CTYPE -Dmemcpy=vh_memcpy -Dmemset=vh_memset -Dcalloc=vh_calloc -Dfree=vh_free" subst="\b(le|be)_packers\[\]@@\1_packers['z' + 1]"
//@ job name=one for=T:0..13 bound="every value of type T: scalar, fixed counts 1..3 and 12, counted arrays of 0..3, either byte order" D=T={T} unwind=40
//@ job name=two for=T:2,7,12/0..13 bound="every pair of an item of type T and an item of any other kind, in either byte order, every value" D=T={T},MAXN=3 unwind=48
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "utils/pack.h"

void *vh_memcpy(void *d, const void *s, size_t n)
{
    for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
void *vh_memset(void *d, int c, size_t n)
{
    for (size_t i = 0; i < n; i++) ((char *)d)[i] = (char)c;
    return d;
}

/* the code's allocations: typed by their element size, ending where the request ends */
#define POOL(t, w) static t m##w##a[16], m##w##b[16], m##w##c[16], m##w##d[16]; static int i##w; \
    static void *get##w(size_t n) { int i = i##w++; return (i == 0 ? m##w##a : i == 1 ? m##w##b : i == 2 ? m##w##c : m##w##d) + 16 - n; }
POOL(uint8_t, 1)
POOL(uint16_t, 2)
POOL(uint32_t, 4)
POOL(uint64_t, 8)
void *vh_calloc(size_t n, size_t sz)
{
#ifdef VH_CBMC
    CHECK(n <= 16, "allocations are as small as the data");
    return sz == 1 ? get1(n) : sz == 2 ? get2(n) : sz == 4 ? get4(n) : get8(n);
#else
#undef calloc
    return calloc(n, sz);
#endif
}
void vh_free(void *p)
{
#ifndef VH_CBMC
#undef free
    free(p);
#endif
}

enum { SCALAR, FIXED, STAR };
#ifndef MAXN
#define MAXN 12
#endif
struct item {
    char t; int form, n;
    uint8_t a8[MAXN]; uint16_t a16[MAXN]; uint32_t a32[MAXN]; uint64_t a64[MAXN];
    float f; double d; char str[4]; int len, one;
    /* what Unpack gives back */
    uint8_t o8[MAXN]; uint16_t o16[MAXN]; uint32_t o32[MAXN]; uint64_t o64[MAXN];
    uint32_t cnt; void *p;
};
static const char types[] = "bBsSiIlLfdDzZx";

static int width(char t)
{
    switch (t) { case 'b': case 'B': return 1; case 's': case 'S': return 2; case 'i': case 'I': case 'f': return 4;
                 case 'l': case 'L': case 'd': case 'D': return 8; }
    return 0;
}
static int isflt(const struct item *x) { return (x->form == SCALAR || x->one) && (x->t == 'f' || x->t == 'd' || x->t == 'D'); }

static void mk(struct item *x, char t, int form, int n)
{
    int one = form == FIXED && n == 1 && width(t);      /* a count of one is a plain value */
    x->t = t; x->form = form; x->n = n; x->p = 0; x->cnt = 77; x->len = 0; x->one = one;
    int w = width(t), k = form == SCALAR ? 1 : n;
    for (int i = 0; i < k; i++) {
        if (w == 1) x->a8[i] = nd_u8();
        if (w == 2) x->a16[i] = nd_u16();
        if (w == 4) x->a32[i] = nd_u32();
        if (w == 8) x->a64[i] = nd_u64();
    }
    if (isflt(x)) {     /* a NaN's bits may change on the way through the registers: leave them out */
        if (w == 4) { ASSUME((x->a32[0] >> 23 & 255) != 255); memcpy(&x->f, &x->a32[0], 4); }
        else { ASSUME((x->a64[0] >> 52 & 2047) != 2047); memcpy(&x->d, &x->a64[0], 8); }
    }
    if (t == 'z' || t == 'Z') {
        x->len = 2;
        for (int i = 0; i < 2; i++) { x->str[i] = MAXN > 3 ? (char)nd_u8() : (char)(0x7f + i); ASSUME(x->str[i]); }
        x->str[2] = 0;
    }
}
static int fm(char *f, int p, const struct item *x)
{
    if (x->form == STAR) f[p++] = '*';
    if (x->form == FIXED) { if (x->n >= 10) f[p++] = (char)('0' + x->n / 10); f[p++] = (char)('0' + x->n % 10); }
    f[p++] = x->t;
    return p;
}
static int put(uint8_t *b, int p, uint64_t v, int w, int big)
{
    for (int i = 0; i < w; i++) b[p + i] = (uint8_t)(v >> 8 * (big ? w - 1 - i : i));
    return p + w;
}
static int expect(uint8_t *b, int p, const struct item *x, int big)
{
    int w = width(x->t), k = x->form == SCALAR ? 1 : x->n;
    if (x->form == STAR) p = put(b, p, (uint64_t)x->n, 4, big);
    if (x->t == 'x') { for (int i = 0; i < k; i++) b[p++] = 0; return p; }
    if (!w) {
        if (x->form == SCALAR) k = x->len + 1;
        for (int i = 0; i < k; i++) b[p++] = i < x->len ? (uint8_t)x->str[i] : 0;
        return p;
    }
    for (int i = 0; i < k; i++)
        p = put(b, p, w == 1 ? x->a8[i] : w == 2 ? x->a16[i] : w == 4 ? x->a32[i] : x->a64[i], w, big);
    return p;
}
static void *arr(struct item *x)
{
    switch (width(x->t)) { case 1: return x->a8; case 2: return x->a16; case 4: return x->a32; case 8: return x->a64; }
    return x->str;
}
static void *out(struct item *x)
{
    switch (width(x->t)) { case 1: return x->o8; case 2: return x->o16; case 4: return x->o32; case 8: return x->o64; }
    return 0;
}
/* the arguments of one item: none, a value or an array, a floating point value, a count and an array, a count */
static int kind(const struct item *x)
{
    if (!x) return 0;
    if (x->t == 'x') return x->form == STAR ? 4 : 0;
    return x->form == STAR ? 3 : isflt(x) ? 2 : 1;
}
static void *val(struct item *x)
{
    if (!x || x->t == 'x') return 0;
    if ((x->form == SCALAR || x->one) && width(x->t))
        switch (width(x->t)) {
        case 1: return (void *)(uintptr_t)x->a8[0];
        case 2: return (void *)(uintptr_t)x->a16[0];
        case 4: return (void *)(uintptr_t)x->a32[0];
        default: return (void *)(uintptr_t)x->a64[0];
        }
    return arr(x);
}
static int uargs(void **v, int k, struct item *x)
{
    if (x->form == STAR) v[k++] = &x->cnt;
    if (x->t == 'x') return k;
    if (!width(x->t) || x->form == STAR) v[k++] = &x->p; else v[k++] = out(x);
    return k;
}
static double flt(const struct item *x) { return x->t == 'f' ? (double)x->f : x->d; }

static void back(struct item *x)
{
    int w = width(x->t), k = x->form == SCALAR ? 1 : x->n;
    if (x->form == STAR) CHECK(x->cnt == (uint32_t)x->n, "the count comes back");
    if (x->t == 'x') return;
    if (!w) {
        if (x->form == STAR && k == 0) { CHECK(x->p == 0, "an empty counted string yields nothing"); return; }
        char *s = x->p;
        CHECK(s != 0, "a string is returned");
        if (x->form == SCALAR) k = x->len + 1;
        for (int i = 0; i <= k; i++) CHECK(s[i] == (i < x->len && i < k ? x->str[i] : 0), "the string comes back, terminated");
        vh_free(s);
        return;
    }
    void *o = x->form == STAR ? x->p : out(x);
    if (k == 0) return;
    CHECK(o != 0, "an array is returned");
    for (int i = 0; i < k; i++) {
        if (w == 1) CHECK(((uint8_t *)o)[i] == x->a8[i], "the value comes back");
        if (w == 2) CHECK(((uint16_t *)o)[i] == x->a16[i], "the value comes back");
        if (w == 4) CHECK(((uint32_t *)o)[i] == x->a32[i], "the value comes back");
        if (w == 8) CHECK(((uint64_t *)o)[i] == x->a64[i], "the value comes back");
    }
    if (x->form == STAR) vh_free(x->p);
}


#define A0(i)
#define A1(i) , v##i
#define A2(i) , flt(i)
#define A3(i) , (uint32_t)i->n, v##i
#define A4(i) , (uint32_t)i->n
#define CASE(a, c) case a * 5 + c: return Pack(b, n, f A##a(x) A##c(y));
#define ROW(a) CASE(a, 0) CASE(a, 1) CASE(a, 2) CASE(a, 3) CASE(a, 4)
static ssize_t pk(uint8_t *b, size_t n, const char *f, struct item *x, struct item *y)
{
    void *vx = val(x), *vy = val(y);
    switch (kind(x) * 5 + kind(y)) { ROW(0) ROW(1) ROW(2) ROW(3) ROW(4) }
    return -1;
}
static ssize_t upk(uint8_t *b, size_t n, const char *f, struct item *x, struct item *y)
{
    void *v[4] = { 0, 0, 0, 0 }; int k = uargs(v, 0, x);
    if (y) uargs(v, k, y);
    return Unpack(b, n, f, v[0], v[1], v[2], v[3]);
}
#define BUF (MAXN * 16 + 16)
static void run(int e, struct item *x, struct item *y)
{
    char f[24]; int p = 0, n = 0, big = e == 2; uint8_t b[BUF + 8], want[BUF + 8];
    if (e) f[p++] = big ? '>' : '<';
    p = fm(f, p, x);
    if (y) { if (e) f[p++] = ' '; p = fm(f, p, y); }
    f[p] = 0;
    n = expect(want, n, x, big);
    if (y) n = expect(want, n, y, big);
    for (int i = 0; i < n + 4; i++) b[i] = 0x5a;
    ssize_t r = pk(b, (size_t)n, f, x, y);
    CHECK(r == n, "Pack reports the bytes it produced");
    for (int i = 0; i < n; i++) CHECK(b[i] == want[i], "the bytes have the documented width, order and value");
    for (int i = n; i < n + 4; i++) CHECK(b[i] == 0x5a, "nothing past the buffer is written");
    r = upk(b, (size_t)n, f, x, y);
    CHECK(r == n, "Unpack reports the bytes it consumed");
    back(x);
    if (y) back(y);
    REACH("round");
}
static void one(int e, char t, int form, int n) { struct item x; mk(&x, t, form, n); run(e, &x, 0); }
#ifdef T
static void forms(int e, char t)
{
    unsigned c = nd_u8();
    if (c == 0) one(e, t, SCALAR, 0); else if (c == 1) one(e, t, FIXED, 2); else if (c == 2) one(e, t, FIXED, 3);
    else if (c == 3) one(e, t, FIXED, 12); else if (c == 4) one(e, t, STAR, 0); else if (c == 5) one(e, t, STAR, 1);
    else if (c == 6) one(e, t, STAR, 2); else if (c == 7) one(e, t, STAR, 3); else if (c == 8) one(e, t, FIXED, 1);
}
void h_one(void)
{
    unsigned e = nd_u8();
    if (e == 0) forms(0, types[T]); else if (e == 1) forms(1, types[T]); else if (e == 2) forms(2, types[T]);
}
static void second(int e, struct item *x, char t)
{
    struct item y; unsigned c = nd_u8();
    if (c == 0) { mk(&y, t, SCALAR, 0); run(e, x, &y); }
    else if (c == 1) { mk(&y, t, FIXED, 3); run(e, x, &y); }
    else if (c == 2) { mk(&y, t, STAR, 2); run(e, x, &y); }
}
static void first(int e, char t, int form, int n)
{
    struct item x; unsigned c = nd_u8();
    mk(&x, t, form, n);
    if (c == 0) second(e, &x, 'B'); else if (c == 2) second(e, &x, 'i');
    else if (c == 3) second(e, &x, 'L'); else if (c == 4) second(e, &x, 'z'); else if (c == 5) second(e, &x, 'd'); else if (c == 6) second(e, &x, 'x');
}
static void firsts(int e)
{
    unsigned c = nd_u8();
    if (c == 0) first(e, types[T], SCALAR, 0); else if (c == 1) first(e, types[T], FIXED, 2); else if (c == 2) first(e, types[T], STAR, 1);
}
void h_two(void)
{
    unsigned e = nd_u8();
    if (e == 0) firsts(0); else if (e == 2) firsts(2);
}
#endif
