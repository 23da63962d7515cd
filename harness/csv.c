//@ prop C10
//@ srcs src/strsplit_csv.c
//@ job name=csv for=N:0..7/0..9 bound="every line of N arbitrary bytes, separators ',' (default) or ',' and byte 0x80, every array size 0..N+1" D=N={N} unwind={N+4} w={N}
//@ job name=seps bound="every pair of separator bytes against every byte" D=N=1 unwind=34
#include "vh.h"
#include <string.h>
#include <errno.h>
#include "utils/strutils.h"

/* Reference: quote characters are removed, the other quote kind and separators inside quotes are content, a quote
 * preceded by a backslash inside its own quotes stands for itself and drops the backslash; the last field counts
 * when it is not empty (unit tests). */
void h_csv(void)
{
    uint8_t o[N + 1], d1 = ',', d2 = 0x80;
    char s[N + 1], tok[3], *v[N + 2]; char sent;
    uint8_t out[N + 2][N + 1]; int len[N + 2], nf = 0, q = 0;
    int dflt = nd_bool();
    tok[0] = d1; tok[1] = d2; tok[2] = 0;
    if (dflt) d1 = d2 = ',';
    for (int i = 0; i < N; i++) { o[i] = nd_u8(); ASSUME(o[i]); s[i] = o[i]; }
    o[N] = s[N] = 0;
    for (int i = 0; i < N + 2; i++) len[i] = 0;
    int overflow = 0, k = nd_small(0, N + 1);
    for (int i = 0; i < N; i++) {
        uint8_t c = o[i];
        if (c == '"' || c == '\'') {
            if (q == 0) { q = c; continue; }
            if (q == c) {
                if (o[i-1] == '\\') { out[nf][len[nf]-1] = c; continue; }
                q = 0; continue;
            }
        } else if (q == 0 && (c == d1 || c == d2)) {
            if (nf == k) overflow = 1;
            nf++;
            if (nf > N + 1) nf = N + 1;
            continue;
        }
        out[nf][len[nf]++] = c;
    }
    int last = len[nf] > 0;
    for (int i = 0; i < N + 2; i++) v[i] = &sent;
    int r = strsplit_csv(v, k, s, dflt ? (char *)0 : (char *)tok);
    for (int i = 0; i < N + 2; i++) if (i >= k) CHECK(v[i] == &sent, "nothing is stored past the array");
    if (overflow) { CHECK(r == -ENOSPC, "more fields than slots is -ENOSPC"); return; }
    if (q) { CHECK(r == -EINVAL, "an unterminated quote is -EINVAL"); return; }
    if (last) { if (nf == k) { CHECK(r == -ENOSPC, "more fields than slots is -ENOSPC"); return; } nf++; }
    CHECK(r == nf, "every field is counted, none is invented");
    ASSUME(r == nf);
    for (int i = 0; i < N + 1; i++) {
        if (i >= nf) continue;
        CHECK(v[i] >= s && v[i] <= s + N, "every field points into the caller's line");
        ASSUME(v[i] >= s && v[i] <= s + N);
        int off = (int)(v[i] - s);
        CHECK(off + len[i] <= N, "every field points into the caller's line");
        ASSUME(off + len[i] <= N);
        for (int j = 0; j < N; j++)
            if (j < len[i]) CHECK((uint8_t)s[off + j] == out[i][j], "every field has its characters, quotes removed");
        CHECK(s[off + len[i]] == 0, "every field is terminated");
    }
    REACH("end");
}

void h_seps(void)
{
    uint8_t c = nd_u8(), d1 = nd_u8(), d2 = nd_u8();
    ASSUME(c && d1 && d2 && c != '"' && c != '\'');
    char s[4] = { 'y', (char)c, 'x', 0 }, t[3] = { (char)d1, (char)d2, 0 }, *v[3];
    ASSUME(d1 != 'x' && d2 != 'x' && d1 != 'y' && d2 != 'y');
    int r = strsplit_csv(v, 3, s, t);
    CHECK(r == (c == d1 || c == d2 ? 2 : 1), "exactly the given bytes are separators");
    REACH("end");
}
