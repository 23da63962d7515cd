/* C library functions CBMC has no model for (straight from their C/POSIX
 * specification). Used in the solver build only; the replay build uses libc. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <ctype.h>
#include <errno.h>
#include <stdlib.h>

size_t strnlen(const char *s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++) ; return i; }
void *memchr(const void *s, int c, size_t n)
{
    const unsigned char *p = s; size_t i;
    for (i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i);
    return 0;
}
size_t strspn(const char *s, const char *set)
{
    size_t i, j;
    for (i = 0; s[i]; i++) { for (j = 0; set[j] && set[j] != s[i]; j++) ; if (!set[j]) break; }
    return i;
}
size_t strcspn(const char *s, const char *set)
{
    size_t i, j;
    for (i = 0; s[i]; i++) { for (j = 0; set[j] && set[j] != s[i]; j++) ; if (set[j]) break; }
    return i;
}
char *strpbrk(const char *s, const char *set) { s += strcspn(s, set); return *s ? (char *)s : 0; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
int strcasecmp(const char *a, const char *b)
{
    for (; *a && tolower((unsigned char)*a) == tolower((unsigned char)*b); a++, b++) ;
    return tolower((unsigned char)*a) - tolower((unsigned char)*b);
}
int strncasecmp(const char *a, const char *b, size_t n)
{
    for (; n && *a && tolower((unsigned char)*a) == tolower((unsigned char)*b); a++, b++, n--) ;
    return n ? tolower((unsigned char)*a) - tolower((unsigned char)*b) : 0;
}

/* printf family: the subset %[-0 +#][width][.prec][hh|h|l|ll|z|j]{d,i,u,x,X,o,c,s,p,%}. Decimal digits are solver
 * variables tied to the value by the place-value equation (cheap), not by repeated division. */
#include <stdarg.h>
static int vh_dec(uint64_t v, char *b)
{
    static const uint64_t P[20] = { 1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull,
        1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull,
        1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull };
    uint8_t nondet_vh_digit(void);
#ifdef VH_DECDIV    /* job whose numbers are all constants */
    (void)P; (void)nondet_vh_digit;
    int n = 0;
    do { b[n++] = '0' + v % 10; v /= 10; } while (v);
    return n;
#elif defined(VH_DIGITS)   /* job whose correct output only ever shows small numbers: anything larger is decided by replay */
    uint32_t sum = 0; int n = 1;
    __CPROVER_assert(v < P[VH_DIGITS], "MODEL: a number longer than this job's text allows");
    for (int i = 0; i < VH_DIGITS; i++) {
        uint8_t d = nondet_vh_digit();
        __CPROVER_assume(d <= 9);
        sum += d * (uint32_t)P[i]; b[i] = '0' + d;
        if (v >= P[i]) n = i + 1;
    }
    __CPROVER_assume(sum == v);
    return n;
#else
    uint64_t sum = 0; int n = 1;
    for (int i = 0; i < 20; i++) {
        uint8_t d = nondet_vh_digit();
        __CPROVER_assume(d <= 9);
        if (i == 19) __CPROVER_assume(d <= 1);
        uint64_t t = sum + d * P[i];
        __CPROVER_assume(t >= sum);
        sum = t; b[i] = '0' + d;
        if (v >= P[i]) n = i + 1;
    }
    __CPROVER_assume(sum == v);
    return n;
#endif
}
int vsnprintf(char *o, size_t sz, const char *f, va_list ap)
{
    size_t w = 0;
#define VH_PUT(ch) do { char c__ = (ch); if (w + 1 < sz) o[w] = c__; w++; } while (0)
    for (; *f; f++) {
        if (*f != '%') { VH_PUT(*f); continue; }
        int left = 0, zero = 0, plus = 0, lg = 0, width = 0, prec = -1;
        for (f++; ; f++) {
            if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f != ' ') break;
        }
        if (*f == '*') { width = va_arg(ap, int); f++; if (width < 0) { left = 1; width = -width; } }
        else for (; *f >= '0' && *f <= '9'; f++) width = width * 10 + *f - '0';
        if (*f == '.') {
            f++; prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else for (; *f >= '0' && *f <= '9'; f++) prec = prec * 10 + *f - '0';
        }
        for (; *f == 'l' || *f == 'z' || *f == 'j' || *f == 'h'; f++) lg += *f == 'h' ? 0 : 1;
        if (*f == '%') { VH_PUT('%'); continue; }
        if (*f == 'c') {
            char c = (char)va_arg(ap, int);
            if (!left) for (int i = 1; i < width; i++) VH_PUT(' ');
            VH_PUT(c);
            if (left) for (int i = 1; i < width; i++) VH_PUT(' ');
            continue;
        }
        if (*f == 's') {
            const char *s = va_arg(ap, const char *); int n;
            for (n = 0; (prec < 0 || n < prec) && s[n]; n++) ;
            if (!left) for (int i = n; i < width; i++) VH_PUT(' ');
            for (int i = 0; i < n; i++) VH_PUT(s[i]);
            if (left) for (int i = n; i < width; i++) VH_PUT(' ');
            continue;
        }
        char b[24]; int n = 0; char sg = 0; uint64_t v;
        if (*f == 'd' || *f == 'i') {
            int64_t x = lg ? va_arg(ap, long) : va_arg(ap, int);
            if (x < 0) { sg = '-'; v = 0 - (uint64_t)x; } else { v = (uint64_t)x; if (plus) sg = '+'; }
            n = vh_dec(v, b);
        } else if (*f == 'u') {
            v = lg ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            n = vh_dec(v, b);
        } else if (*f == 'x' || *f == 'X') {
            v = lg ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            int max = lg ? 16 : 8; n = 1;
            for (int i = 0; i < max; i++) {
                int h = (v >> (4 * i)) & 15;
                b[i] = h < 10 ? '0' + h : (*f == 'x' ? 'a' : 'A') + h - 10;
                if (h) n = i + 1;
            }
        } else if (*f == 'o') {
            v = lg ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            int max = lg ? 22 : 11; n = 1;
            for (int i = 0; i < max; i++) { b[i] = '0' + ((v >> (3 * i)) & 7); if (b[i] != '0') n = i + 1; }
        } else __CPROVER_assert(0, "MODEL: printf conversion not supported");
        for (; n < prec; n++) b[n] = '0';
        int tot = n + (sg != 0);
        if (!left && !zero) for (int i = tot; i < width; i++) VH_PUT(' ');
        if (sg) VH_PUT(sg);
        if (!left && zero) for (int i = tot; i < width; i++) VH_PUT('0');
        for (int i = n - 1; i >= 0; i--) VH_PUT(b[i]);
        if (left) for (int i = tot; i < width; i++) VH_PUT(' ');
    }
    if (sz) o[w < sz ? w : sz - 1] = 0;
    return (int)w;
}
int snprintf(char *o, size_t sz, const char *f, ...)
{
    va_list ap; va_start(ap, f); int r = vsnprintf(o, sz, f, ap); va_end(ap); return r;
}
int sprintf(char *o, const char *f, ...)
{
    va_list ap; va_start(ap, f); int r = vsnprintf(o, (size_t)1 << 40, f, ap); va_end(ap); return r;
}

#ifdef VH_INPLACE
/* realloc that always grows in place (a legal implementation): blocks are at least VH_INPLACE bytes from the start */
void *realloc(void *p, size_t n)
{
    if (!p) { __CPROVER_assert(n <= VH_INPLACE, "MODEL: block larger than the job provides"); return malloc(VH_INPLACE); }
    __CPROVER_assert(n <= __CPROVER_OBJECT_SIZE(p), "MODEL: growth beyond the block provided by the job");
    return p;
}
void *calloc(size_t n, size_t s)
{
    char *p = malloc(n * s > VH_INPLACE ? n * s : VH_INPLACE);
    __CPROVER_assume(p != 0);
    __CPROVER_array_set(p, 0);
    return p;
}
#endif
