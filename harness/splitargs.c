//@ prop C11
//@ srcs src/splitargs.c
//@ job name=args for=N:0..8/0..10 bound="every line of N arbitrary bytes, every array size 0..N+1" D=N={N} unwind={N+4}
#include "vh.h"
#include <string.h>
#include <errno.h>
#include "utils/strutils.h"
static int space(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }

void h_args(void)
{
    uint8_t o[N + 1]; char s[N + 1], *v[N + 2], sent;
    uint8_t out[N + 2][N + 1]; int len[N + 2], nw = 0, q = 0, in = 0, overflow = 0;
    int k = nd_small(0, N + 1);
    for (int i = 0; i < N; i++) { o[i] = nd_u8(); ASSUME(o[i]); s[i] = o[i]; }
    o[N] = s[N] = 0;
    for (int i = 0; i < N + 2; i++) len[i] = 0;
    for (int i = 0; i < N; i++) {
        uint8_t c = o[i];
        if (q) { if (c == q) q = 0; else out[nw][len[nw]++] = c; continue; }
        if (space(c)) { if (in) { if (nw == k) overflow = 1; nw++; in = 0; } continue; }
        in = 1;
        if (c == '"' || c == '\'') q = c; else out[nw][len[nw]++] = c;
    }
    for (int i = 0; i < N + 2; i++) v[i] = &sent;
    int r = strsplitargs(v, k, s);
    for (int i = 0; i < N + 2; i++) if (i >= k) CHECK(v[i] == &sent, "nothing is stored past the array");
    if (overflow) { CHECK(r == -ENOSPC, "more words than slots is -ENOSPC"); return; }
    if (q) { CHECK(r == -EINVAL, "an unterminated quote is -EINVAL"); return; }
    if (in) { if (nw == k) { CHECK(r == -ENOSPC, "more words than slots is -ENOSPC"); return; } nw++; }
    CHECK(r == nw, "every word is counted, none is invented");
    ASSUME(r == nw);
    for (int i = 0; i < N + 1; i++) {
        if (i >= nw) continue;
        CHECK(v[i] >= s && v[i] <= s + N, "every word points into the caller's line");
        ASSUME(v[i] >= s && v[i] <= s + N);
        int off = (int)(v[i] - s);
        CHECK(off + len[i] <= N, "every word points into the caller's line");
        ASSUME(off + len[i] <= N);
        for (int j = 0; j < N; j++)
            if (j < len[i]) CHECK((uint8_t)s[off + j] == out[i][j], "every word has its characters, quotes removed, quoted blanks kept");
        CHECK(s[off + len[i]] == 0, "every word is terminated");
    }
    REACH("end");
}
