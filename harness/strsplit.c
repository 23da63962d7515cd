//@ prop C09
//@ srcs src/strsplit.c src/strtrim.c
//@ job name=quick for=N:0..8/0..11 bound="every string of N arbitrary bytes, delimiters ',' and ' ', every array size 0..N+1, separators significant" D=N={N},SQZ=0 unwind={N+4} w={N}
//@ job name=quick_sqz entry=h_quick for=N:0..7/0..9 bound="every string of N arbitrary bytes, delimiters ',' and ' ', every array size 0..N+1, runs squeezed" D=N={N},SQZ=1 unwind={N+4} w={N+2}
//@ job name=quick_sqz1 entry=h_quick for=N:4/4..6 bound="every string of N arbitrary bytes, delimiters ':' and byte 0xff, every array size 0..N+1, runs squeezed" D=N={N},SQZ=1,D1=58,D2=255 unwind={N+4} w={N+2}
//@ job name=alloc for=N:0..2/0..3 bound="every string of N arbitrary bytes, allocating form" D=N={N},SQZ=0 unwind={max(18,N+4)}
//@ job name=alloc_sqz entry=h_alloc for=N:0..2/0..3 bound="every string of N arbitrary bytes, allocating form" D=N={N},SQZ=1 unwind={max(18,N+4)}
//@ job name=grow for=N:15,16,17,31,32,33,34 bound="allocating form growing past its initial size: N fields with one arbitrary last byte" D=N={N},SQZ=0 unwind=40
//@ job name=delims bound="every pair of delimiter bytes against every byte, both modes" D=N=1,SQZ=0 unwind=34
#include "vh.h"
#ifndef D1
#define D1 ','
#define D2 ' '
#endif
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include "utils/strutils.h"
static int space(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }

/* fields of s: start/length; squeeze: white space trimmed off both ends and runs of delimiters act as one.
 * (a leading run leaves one empty first field when anything follows). A last field that is empty is not reported (documented by the unit tests). */
struct ref { int n; int beg[N + 2], len[N + 2]; };
static void ref_split(struct ref *f, const uint8_t *s, uint8_t d1, uint8_t d2, int sqz)
{
    int b = 0, e = N, start, prevd = 0, any = 0;
    f->n = 0;
    if (sqz) {
        while (b < e && space(s[b])) b++;
        while (e > b && space(s[e-1])) e--;
    }
    start = b;
    for (int i = 0; i < N; i++) if (i >= b && i < e && s[i] != d1 && s[i] != d2) any = 1;
    if (sqz && !any) return;
    for (int i = 0; i < N; i++) {
        if (i < b || i >= e) continue;
        int d = s[i] == d1 || s[i] == d2;
        if (d) {
            if (!(sqz && prevd)) { f->beg[f->n] = start; f->len[f->n] = i - start; f->n++; }
            start = i + 1;
        }
        prevd = d;
    }
    if (start < e) { f->beg[f->n] = start; f->len[f->n] = e - start; f->n++; }
}

static void check_fields(char **v, const struct ref *f, const uint8_t *orig, const char *lo)
{
    for (int i = 0; i < N + 1; i++) {
        if (i >= f->n) continue;
        CHECK(v[i] >= lo && v[i] <= lo + N, "every field points into the caller's string");
        ASSUME(v[i] >= lo && v[i] <= lo + N);
        int off = (int)(v[i] - lo);
        CHECK(off + f->len[i] <= N, "every field lies in the caller's string");
        ASSUME(off + f->len[i] <= N);
        for (int j = 0; j < N; j++)
            if (j < f->len[i]) CHECK((uint8_t)lo[off + j] == orig[f->beg[i] + j], "every field has its characters, in order");
        CHECK(lo[off + f->len[i]] == 0, "every field ends where its delimiter was");
    }
}

void h_quick(void)
{
    uint8_t o[N + 1], d1 = D1, d2 = D2;
    char s[N + 1], tok[3], *v[N + 2]; struct ref f; char sent;
    tok[0] = d1; tok[1] = d2; tok[2] = 0;
    for (int i = 0; i < N; i++) { o[i] = nd_u8(); ASSUME(o[i]); s[i] = o[i]; }
    o[N] = s[N] = 0;
    int sqz = SQZ, k = nd_small(0, N + 1);
    ref_split(&f, o, d1, d2, sqz);
    for (int i = 0; i < N + 2; i++) v[i] = &sent;
    int r = strsplit_quick(v, k, s, tok, sqz);
    for (int i = 0; i < N + 2; i++) if (i >= k) CHECK(v[i] == &sent, "nothing is stored past the array");
    if (f.n > k) { CHECK(r < 0, "more fields than slots is reported"); return; }
    CHECK(r == f.n, "every field is counted, none is invented");
    ASSUME(r == f.n);
    check_fields(v, &f, o, s);
    REACH("end");
}

void h_alloc(void)
{
    uint8_t o[N + 1], d1 = D1;
    char s[N + 1], tok[2]; struct ref f; int n = -1;
    tok[0] = d1; tok[1] = 0;
    for (int i = 0; i < N; i++) { o[i] = nd_u8(); ASSUME(o[i]); s[i] = o[i]; }
    o[N] = s[N] = 0;
    int sqz = SQZ;
    ref_split(&f, o, d1, d1, sqz);
    char **v = strsplit(&n, s, tok, sqz);
    CHECK(v != 0, "the allocating form returns an array");
    CHECK(n == f.n, "every field is counted, none is invented");
    ASSUME(v != 0 && n == f.n);
    check_fields(v, &f, o, s);
    free(v);
    REACH("end");
}

void h_grow(void)
{
    char s[N + 1]; int n = -1; uint8_t c = nd_u8();
    ASSUME(c);
    for (int i = 0; i < N - 1; i++) s[i] = ',';
    s[N-1] = c; s[N] = 0;
    char **v = strsplit(&n, s, ",", 0);
    CHECK(v != 0, "the allocating form returns an array");
    CHECK(n == N, "every field is counted, none is invented");
    ASSUME(v != 0 && n == N);
    for (int i = 0; i < N; i++)
        CHECK(v[i] == s + i, "every field starts after its delimiter");
    free(v);
    REACH("end");
}

void h_delims(void)
{
    uint8_t c = nd_u8(), d1 = nd_u8(), d2 = nd_u8();
    ASSUME(c && d1 && d2);
    char s[4] = { 'y', (char)c, 'x', 0 }, t[3] = { (char)d1, (char)d2, 0 }, *v[3];
    ASSUME(d1 != 'x' && d2 != 'x' && d1 != 'y' && d2 != 'y');
    int r = strsplit_quick(v, 3, s, t, nd_bool());
    CHECK(r == (c == d1 || c == d2 ? 2 : 1), "exactly the given bytes are delimiters");
    REACH("end");
}
