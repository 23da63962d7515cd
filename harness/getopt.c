//@ prop C48
//@ srcs
//@ default unwind=9 mem=12 flags="--object-bits 12 --max-field-sensitivity-array-size 256"
//@ job name=long w=200 for=N:1..2 D=NARG={N},LEN={6-N} unwindset=getopt_internal.0:{N+2},permute_args.0:{N+1},permute_args.1:{N+1},gcd.0:{N+1} bound="every vector of {N} arguments of up to {6-N} characters from the option alphabet"
//@ job name=short w=60 for=N:1..2 D=NARG={N},LEN=3 unwindset=getopt_internal.0:{N+2},permute_args.0:{N+1},permute_args.1:{N+1},gcd.0:{N+1} bound="getopt: every vector of {N} arguments of up to 3 characters"
//@ job name=wide entry=h_long tier=thorough for=N:3..3 D=NARG={N},LEN=2 unwindset=getopt_internal.0:{N+2},permute_args.0:{N+1},permute_args.1:{N+1},gcd.0:{N+1} bound="every vector of {N} arguments of up to 2 characters from the option alphabet"
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <assert.h>
#define getenv(x) ((char *)0)
#include "getopt_long.c"
#undef getenv

static const char Shorts[] = "ab:c::";
static const struct option Longs[] = {
    { "alb", required_argument, 0, 1001 }, { "alc", no_argument, 0, 1002 }, { "al", no_argument, 0, 1003 },
    { "bca", optional_argument, 0, 1004 }, { 0, 0, 0, 0 } };
static char A[NARG][LEN + 1], Prog[] = "p";
static char *V[NARG + 2];

struct ev { int ret; char *arg; };
#define MAXEV (NARG * (LEN - 1) + 1)
static struct ev E[MAXEV + 1]; static unsigned Nev;
static char *Ops[NARG]; static unsigned Nops;
static void emit(int r, char *a) { E[Nev].ret = r; E[Nev].arg = a; Nev++; }

/* does the first n characters of s abbreviate name?  2: they are all of it */
static int abbrev(const char *s, unsigned n, const char *name)
{
    unsigned i;
    for (i = 0; i < LEN; i++) { if (i >= n) break; if (s[i] != name[i]) return 0; }
    return name[n] ? 1 : 2;
}
static void expect(int lg)
{
    int rest = 0;
    for (unsigned i = 0; i < NARG; i++) {
        char *a = A[i];
        if (rest || a[0] != '-' || !a[1]) { Ops[Nops++] = a; continue; }
        if (a[1] == '-') {
            if (!a[2] || !lg) { rest = 1; continue; }
            char *s = a + 2; unsigned n; int m = -1, cnt = 0;
            for (n = 0; n < LEN && s[n] && s[n] != '='; n++) ;
            for (int k = 0; k < 4; k++) { int q = abbrev(s, n, Longs[k].name); if (q == 2) { m = k; cnt = 1; break; } if (q) { m = k; cnt++; } }
            if (cnt != 1) { emit('?', 0); continue; }
            char *arg = s[n] ? s + n + 1 : 0;
            if (Longs[m].has_arg == no_argument && arg) { emit('?', 0); continue; }
            if (Longs[m].has_arg == required_argument && !arg) {
                if (i + 1 >= NARG) { emit('?', 0); continue; }
                arg = A[++i];
            }
            emit(Longs[m].val, arg);
            continue;
        }
        for (unsigned j = 1; j < LEN && a[j]; j++) {
            if (a[j] == 'a') emit('a', 0);
            else if (a[j] == 'c') { emit('c', a[j + 1] ? a + j + 1 : 0); break; }
            else if (a[j] == 'b') {
                if (a[j + 1]) emit('b', a + j + 1);
                else if (i + 1 < NARG) emit('b', A[++i]);
                else emit('?', 0);
                break;
            } else emit('?', 0);
        }
    }
}
static void go(int lg)
{
    V[0] = Prog;
    for (int i = 0; i < NARG; i++) {
        for (int j = 0; j < LEN; j++) {
            char c = nd_u8(); A[i][j] = c;
            ASSUME(c == 0 || c == '-' || c == 'a' || c == 'b' || c == 'c' || c == 'l' || c == '=' || c == ':');
            if (j && !A[i][j - 1]) ASSUME(!c);
        }
        V[i + 1] = A[i];
    }
    expect(lg);
    opterr = 0;
    unsigned k;
    for (k = 0; k <= MAXEV; k++) {
        int idx = -1, r = lg ? getopt_long(NARG + 1, V, Shorts, Longs, &idx) : getopt(NARG + 1, V, Shorts);
        if (r == -1) break;
        CHECK(k < Nev, "nothing is returned that was not given");
        if (k >= Nev) return;
        CHECK(r == E[k].ret, "each option in order");
        if (r == E[k].ret && r != '?') {
            CHECK(optarg == E[k].arg, "with its own argument");
            if (r > 1000) CHECK(idx == r - 1001, "and its place in the table");
        }
    }
    CHECK(k == Nev, "every option is returned");
    CHECK(optind == NARG + 1 - (int)Nops, "what remains are the operands");
    for (unsigned i = 0; i < NARG; i++) if (i < Nops && optind + i <= NARG) CHECK(V[optind + i] == Ops[i], "the operands keep their order");
    CHECK(V[0] == Prog && V[NARG + 1] == 0, "the ends of the vector stay");
    if (Nev == NARG) REACH("options");
    if (Nops == NARG) REACH("operands");
}
void h_long(void) { go(1); }
void h_short(void) { go(0); }
