//@ prop C49
//@ srcs src/strcopy.c
//@ default unwind=300 flags="--object-bits 12 --max-field-sensitivity-array-size 1024"
//@ job name=total w=140 for=T:1,4,5/0..9 D=TOT={T},COLS=4,TWO bound="total number {T} of the list in the harness, every two increments"
//@ job name=width for=N:0,3,7,33,60,66,101/0..102,1000,65535 D=COLS={N},TOT=2 bound="a terminal {N} columns wide: every two increments"
/* progbar.c is taken in as source; the terminal is the harness's own,
 * humanize_size (decided under its own property) gives a fixed text, and
 * snprintf gives every conversion a field of fixed size in which characters
 * that are not there are shown as \1: texts are read without those. */
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <assert.h>
#include "utils/strutils.h"
#include "utils/progbar.h"
static ssize_t vh_write(int fd, const void *b, size_t n);
static int vh_isatty(int fd), vh_ioctl(int fd, unsigned long rq, void *p);
static char *vh_humanize(char *b, size_t n, uint64_t v) { (void)v; if (n < 3) return b; b[0] = '1'; b[1] = 'k'; b[2] = 0; return b; }
static int vh_snprintf(char *o, size_t sz, const char *f, ...)
{
    va_list ap; size_t w = 0;
#define PUT(ch) do { char c__ = (ch); if (w + 1 < sz) o[w] = c__; w++; } while (0)
    va_start(ap, f);
    for (; *f; f++) {
        if (*f != '%') { PUT(*f); continue; }
        unsigned width = 0, lg = 0;
        for (f++; *f == '-' || *f == '0'; f++) ;
        for (; *f >= '0' && *f <= '9'; f++) width = width * 10 + (*f - '0');
        for (; *f == 'l' || *f == 'z'; f++) lg = 1;
        if (*f == '%') { PUT('%'); continue; }
        if (*f == 's') {
            const char *s = va_arg(ap, const char *); unsigned field = width >= 20 ? 48 : width ? 20 : 56, i, end = 0;
            for (i = 0; i < field; i++) { if (!end && !s[i]) end = 1; PUT(end ? 1 : s[i]); }
            if (!end) CHECK(!s[i], "a text that fits its field");
        } else {
            uint64_t v = lg ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
            CHECK(v < 1000, "a small number"); unsigned d = v % 1024;
            PUT(d >= 100 ? '0' + (char)(d / 100) : 1); PUT(d >= 10 ? '0' + (char)(d / 10 % 10) : 1); PUT('0' + (char)(d % 10));
        }
    }
    va_end(ap);
    if (sz) o[w < sz ? w : sz - 1] = 0;
    return w;
}
#define write vh_write
#define isatty vh_isatty
#define ioctl(a, b, c) vh_ioctl(a, b, c)
#define humanize_size(b, n, v) vh_humanize(b, n, v)
#define snprintf vh_snprintf
static void *vh_ms(void *d, int c, size_t n) { for (size_t i = 0; i < 120; i++) { if (i >= n) break; ((char *)d)[i] = c; } CHECK(n <= 120 || n == sizeof(progress), "no longer than a bar"); return d; }
static int vh_strcmp(const char *a, const char *b) { size_t i; for (i = 0; a[i] && a[i] == b[i]; i++) ; return (unsigned char)a[i] - (unsigned char)b[i]; }
#define strcmp vh_strcmp
#define memset vh_ms
#include "progbar.c"
#undef write
#undef memset
#undef strcmp

static const uint64_t Totals[10] = { 1, 3, 100, 10485760, 184467440737095516ull, UINT64_MAX, 7, 1000, 1ull << 63, 199 };
#define TOTAL Totals[TOT]
#define WIDTH (COLS > 50 ? 50 : COLS < 4 ? 2 : COLS / 2)
static char Text[320]; static size_t Len; static unsigned Lines; static int Fd = 7;
static int vh_isatty(int fd) { return fd == Fd; }
static int vh_ioctl(int fd, unsigned long rq, void *p) { (void)rq; ((struct winsize *)p)->ws_col = COLS; return fd == Fd ? 0 : -1; }
static ssize_t vh_write(int fd, const void *b, size_t n)
{
    CHECK(fd == Fd, "output goes to the terminal it was given");
    if (((const char *)b)[0] == '\x1B' || ((const char *)b)[0] == '\n') return n;
    CHECK(n < sizeof Text, "a line fits");
    Lines++; Len = n;
    for (size_t i = 0; i < sizeof Text; i++) { if (i >= n) break; Text[i] = ((const char *)b)[i]; }
    return n;
}
static unsigned Done, Pct;
static void look(void)
{
    unsigned st = 0, o = 0, dots = 0, v = 0, nd = 0;
    for (unsigned i = 0; i < sizeof Text; i++) {
        if (i >= Len) break;
        char c = Text[i];
        if (c == 1) continue;
        if (c == '[') st = 1;
        else if (c == ']') { CHECK(st == 1, "one bar"); st = 2; }
        else if (st == 1) { if (c == 'o') { CHECK(!dots, "the bar fills from the left"); o++; } else { CHECK(c == '.', "the rest of the bar is empty"); dots++; } }
        else if (st == 2 && c >= '0' && c <= '9') { v = v * 10 + (c - '0'); nd++; }
        else if (st == 2 && c == '%') st = 3;
    }
    CHECK(st == 3 && nd > 0, "a percentage ends the line");
    CHECK(o + dots == WIDTH, "the bar is as wide as the terminal allows");
    Done = o; Pct = v;
}
static void go(void)
{
    static progress p; uint64_t a = nd_u64(), b = nd_u64(), c;
    CHECK(progressbar_init(&p, Fd, TOTAL, P_HUMAN) == 0, "a bar can be set up");
    p.cur = a;                              /* any history so far */
    progressbar_update(&p, 0);
    look(); unsigned p1 = Pct, d1 = Done;
    if (TOTAL <= UINT64_MAX / 100) CHECK(p1 == (a >= TOTAL ? 100 : 100 * a / TOTAL), "the percentage done, rounded down");
    if (a >= TOTAL) CHECK(p1 == 100, "all done is 100%");
    if (p1 == 100) CHECK(d1 == WIDTH, "the bar is full at 100%");
    CHECK(p1 <= 100, "never more than 100%");
#ifdef TWO
    progressbar_update(&p, b);
    look(); unsigned p2 = Pct, d2 = Done;
    c = a + b < a ? UINT64_MAX : a + b;
    CHECK(p2 >= p1 && d2 >= d1, "progress never goes back");
    if (c >= TOTAL) CHECK(p2 == 100, "all done is 100%");
    if (p1 == p2 && d1 == d2) CHECK(Lines == 1, "an unchanged line is not repeated"); else CHECK(Lines == 2, "a changed line is shown");
    if (p1 < p2) REACH("moves");
#else
    (void)b; (void)c;
    if (a >= TOTAL) REACH("done");
#endif
}
void h_total(void) { go(); }
void h_width(void) { go(); }
