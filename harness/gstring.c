//@ prop C17
//@ srcs src/gstring.c
//@ default cc="-Dfgetc=vh_fgetc -Dgetc=vh_getc -Dferror=vh_ferror -Dfeof=vh_feof"
//@ job name=init for=N:0..4 bound="initialisation from every string of N bytes and for every size 0..9; duplicate, content comparison" D=N={N},S=0 unwind={N+6}
//@ job name=append for=S:1..14 bound="valid string state S (capacity 2,4,8 and every length below it, every content), then every appended string, gstr or character of 0..3 characters, or the string itself" D=S={S},N=0 unwind=18
//@ job name=edit for=S:1..14 bound="valid string state S, then truncate (every 64-bit length), reset, chop, chop_if (every set of two characters), trim or unquote" D=S={S},N=0 unwind=11
//@ job name=copy for=S:1..14 bound="valid string state S copied over by every other state of capacity up to 4 or by itself" D=S={S},N=0 unwind=11
//@ job name=line for=N:0..5/0..9 bound="reading one line of every stream of N arbitrary bytes with delimiters newline and 0x80, start capacity 2, a read error anywhere" D=N={N},S=1 unwind={N+4}
//@ job name=line4 entry=h_line for=N:0..6/0..9 bound="the same from start capacity 4 with old content" D=N={N},S=5 unwind={N+5}
//@ job name=seps entry=h_line for=N:1 bound="every pair of delimiter bytes against every byte" D=N={N},S=1,ANYSEP=1 unwind={N+4}
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <stdio.h>
#include "utils/gstring.h"
#ifdef VH_CBMC
#define NOFAIL(p) __CPROVER_assume((p) != 0)
#else
#define NOFAIL(p) ((void)(p))
#endif
#define MX 24
#define CAP(s) ((s) < 1 ? 1 : (s) < 3 ? 2 : (s) < 7 ? 4 : 8)
#define LEN(s) ((s) - CAP(s) + 1)

typedef struct { int n; char c[MX]; } ref;

/* any valid string of the given capacity and length */
static void mk(gstr *g, ref *r, int cap, int len)
{
    g->cap = (size_t)cap; g->len = (size_t)len; r->n = len;
    g->str = malloc((size_t)cap); NOFAIL(g->str);
    for (int i = 0; i < len; i++) { char c = (char)nd_u8(); ASSUME(c); g->str[i] = r->c[i] = c; }
    g->str[len] = 0;
}
static void inv(gstr *g, const ref *r, int max)
{
    CHECK(g->len == (size_t)r->n, "the length is that of the content");
    CHECK(g->cap > g->len, "the capacity covers content and terminator");
    ASSUME(g->len == (size_t)r->n && g->cap > g->len);
    for (int i = 0; i < max; i++) if (i < r->n) CHECK(g->str[i] == r->c[i], "the content is exact");
    CHECK(g->str[r->n] == 0, "the content is terminated");
    char last = g->str[g->cap - 1]; (void)last;      /* the storage really covers the capacity */
}
static int space(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }

void h_init(void)
{
    gstr g, d; ref r; char s[N + 1]; static const ref none;
    size_t n = nd_small(0, 9);
    CHECK(gstr_init(&g, n) == &g, "the string is returned");
    inv(&g, &none, 0); CHECK(g.cap > n, "the asked size is reserved");
    gstr_fini(&g);
    for (int i = 0; i < N; i++) { s[i] = (char)nd_u8(); ASSUME(s[i]); r.c[i] = s[i]; }
    s[N] = 0; r.n = N;
    CHECK(gstr_init_from(&g, s) == &g, "the string is returned");
    inv(&g, &r, N);
    CHECK(gstr_dup(&d, &g) == &d, "the string is returned");
    inv(&d, &r, N); inv(&g, &r, N);
    CHECK(gstr_eq(&g, &d) && gstr_eq_str(&g, s), "equal strings compare equal");
    CHECK(d.str != g.str, "a duplicate has its own storage");
    if (N > 0) { int k = (int)nd_small(0, N ? N - 1 : 0); uint8_t x = nd_u8(); ASSUME(x && (char)x != d.str[k]); d.str[k] = (char)x;
        CHECK(!gstr_eq(&g, &d) && !gstr_eq_str(&d, s), "different strings compare different"); inv(&g, &r, N); }
    gstr_fini(&g); gstr_fini(&d);
    CHECK(!g.str && !g.len && !g.cap, "a finished string is empty");
    REACH("end");
}

static void add(ref *r, const char *s, int n) { for (int i = 0; i < n; i++) r->c[r->n + i] = s[i]; r->n += n; }

void h_append(void)
{
    gstr g, t; ref r, q; int op = (int)nd_small(0, 3), m = (int)nd_small(0, 3);
    mk(&g, &r, CAP(S), LEN(S));
    if (op == 0) {
        char c = (char)nd_u8(); ASSUME(c);
        CHECK(gstr_append_ch(&g, c) == LEN(S) + 1, "the new length is returned");
        add(&r, &c, 1);
        REACH("ch");
    } else if (op == 1) {
        for (int k = 0; k <= 3; k++) if (k == m) {
            mk(&t, &q, 4, k);
            CHECK(gstr_append_str(&g, t.str) == (size_t)(LEN(S) + k), "the new length is returned");
            add(&r, q.c, k);
        }
        CHECK(gstr_append_str(&g, 0) == (size_t)r.n, "a null string appends nothing");
        inv(&t, &q, 3);
        REACH("str");
    } else if (op == 2) {
        for (int k = 0; k <= 3; k++) if (k == m) {
            mk(&t, &q, 4, k);
            CHECK(gstr_append(&g, &t) == LEN(S) + k, "the new length is returned");
            add(&r, q.c, k);
        }
        inv(&t, &q, 3);
        REACH("gstr");
    } else {
        CHECK(gstr_append(&g, &g) == 2 * LEN(S), "the new length is returned");
        ref o = r; add(&r, o.c, LEN(S));
        REACH("self");
    }
    inv(&g, &r, 2 * LEN(S) + 3);
    gstr_fini(&g);
}

void h_edit(void)
{
    gstr g; ref r; int op = (int)nd_small(0, 5), l = LEN(S);
    mk(&g, &r, CAP(S), LEN(S));
    int lastc = l ? r.c[l ? l - 1 : 0] : 0;
    if (op == 0) {
        size_t n = nd_size();
        int v = gstr_truncate(&g, n);
        if (n < (size_t)l) r.n = (int)n;
        CHECK(v == r.n, "the resulting length is returned");
        REACH("truncate");
    } else if (op == 1) {
        gstr_reset(&g); r.n = 0;
        REACH("reset");
    } else if (op == 2) {
        int v = gstr_chop(&g), did = 0;
        if (r.n && r.c[r.n - 1] == '\n') { r.n--; did = 1; }
        if (r.n && r.c[r.n - 1] == '\r') { r.n--; did = 1; }
        CHECK(!!v == did, "true exactly when a line end was chopped");
        REACH("chop");
    } else if (op == 3) {
        char set[3]; set[0] = (char)nd_u8(); set[1] = (char)nd_u8(); set[2] = 0;
        int in = l && (lastc == set[0] || (set[0] && lastc == set[1]));
        int v = gstr_chop_if(&g, set);
        if (in) { r.n--; CHECK(v == lastc, "the chopped character is returned"); }
        REACH("chop_if");
    } else if (op == 4) {
        int a = 0, b = l;
        for (int i = 0; i < l; i++) if (a == i && space((uint8_t)r.c[i])) a++;
        for (int i = l; i > 0; i--) if (b == i && b > a && space((uint8_t)r.c[i - 1])) b--;
        CHECK(gstr_trim(&g) == &g, "the string is returned");
        ref o = r; r.n = b - a;
        for (int i = 0; i < l; i++) if (i < b - a) r.c[i] = o.c[a + i];
        REACH("trim");
    } else {
        int q = l ? r.c[0] : 0, v = gstr_unquote(&g);
        if (q != '"' && q != '\'') CHECK(v == 0, "no quote: 0");
        else if (l < 2 || lastc != q) CHECK(v < 0, "no ending quote: error");
        else {
            CHECK(v == q, "the removed quote is returned");
            ref o = r; r.n = l - 2;
            for (int i = 0; i + 2 < l; i++) r.c[i] = o.c[i + 1];
        }
        REACH("unquote");
    }
    inv(&g, &r, l);
    gstr_fini(&g);
}

void h_copy(void)
{
    gstr g, t; ref r, q; int s = (int)nd_small(1, 7);
    mk(&g, &r, CAP(S), LEN(S));
    if (s == 7) {
        CHECK(gstr_copy(&g, &g) == &g, "the destination is returned");
        inv(&g, &r, LEN(S));
        REACH("self");
        return;
    }
    for (int k = 1; k < 7; k++) if (k == s) {
        mk(&t, &q, CAP(k), LEN(k));
        CHECK(gstr_copy(&t, &g) == &t, "the destination is returned");
    }
    inv(&t, &r, LEN(S)); inv(&g, &r, LEN(S));
    CHECK(t.str != g.str, "a copy has its own storage");
    gstr_fini(&g); gstr_fini(&t);
    REACH("end");
}

static uint8_t in[N + 1]; static int pos, fail, err, eof;
int fgetc(FILE *f) { (void)f; if (pos == fail) { err = 1; errno = EIO; return EOF; } if (pos >= N) { eof = 1; return EOF; } return in[pos++]; }
int getc(FILE *f) { return fgetc(f); }
int ferror(FILE *f) { (void)f; return err; }
int feof(FILE *f) { (void)f; return eof; }

void h_line(void)
{
    gstr g; ref r; char tok[3];
    for (int i = 0; i < N; i++) { in[i] = nd_u8(); ASSUME(in[i]); }
    tok[0] = '\n'; tok[1] = (char)0x80; tok[2] = 0;
#ifdef ANYSEP
    tok[0] = (char)nd_u8(); tok[1] = (char)nd_u8();
#endif
    fail = nd_bool() ? (int)nd_small(0, N) : -1;
    int limit = fail >= 0 ? fail : N;
    mk(&g, &r, CAP(S), LEN(S));
    int e = N, z = tok[0] == 0;
    for (int i = N - 1; i >= 0; i--) if (i >= limit || (!z && ((char)in[i] == tok[0] || (tok[1] && (char)in[i] == tok[1])))) e = i;
    int v = gstr_readline(&g, (FILE *)in, tok);
    r.n = e;
    for (int i = 0; i < N; i++) r.c[i] = (char)in[i];
    if (e == limit && fail >= 0) { CHECK(v < 0, "a read error is reported"); REACH("error"); return; }
    CHECK(v == r.n, "the length of the line is returned");
    inv(&g, &r, N);
    if (e == limit) { CHECK(eof, "end of input"); REACH("eof"); return; }
    CHECK(pos == e + 1, "exactly the line and its delimiter are consumed");
#if N > 0
    REACH("line");
#endif
}
