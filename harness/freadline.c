//@ prop C16
//@ srcs src/freadline.c
//@ default cc="-Dfgetc=vh_fgetc -Dgetc=vh_getc -Dungetc=vh_ungetc -Dferror=vh_ferror -Dfeof=vh_feof"
//@ job name=lines for=N:0..6/0..9 bound="every stream of N arbitrary bytes read to its end, every buffer size 0..N+2, a read error instead of any byte or of the end" D=N={N} unwind={2*N+6}
#include "vh.h"
#include <string.h>
#include <errno.h>
/* The stream: a byte array with an optional failure position, behind the stdio calls line reading can use
 * (renamed on the command line, so the real source is compiled against these). */
#include <stdio.h>
#include "utils/strutils.h"
static uint8_t in[N + 1]; static int pos, fail, err, eof, back = -1, bad;
int fgetc(FILE *f) { (void)f; if (back >= 0) { int c = back; back = -1; return c; }
    if (pos == fail) { err = 1; errno = EIO; return EOF; } if (pos >= N) { eof = 1; return EOF; } return in[pos++]; }
int getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *f) { (void)f; if (c == EOF || back >= 0) { if (c != EOF) bad = 1; return EOF; } eof = 0; back = c; return c; }
int ferror(FILE *f) { (void)f; return err; }
int feof(FILE *f) { (void)f; return eof; }

void h_lines(void)
{
    int n = (int)nd_small(0, N + 2); unsigned char g[N + 5]; FILE *fp = (FILE *)g;
    for (int i = 0; i < N; i++) in[i] = nd_u8();
    fail = nd_bool() ? (int)nd_small(0, N) : -1;
    int limit = fail >= 0 ? fail : N, p = 0;       /* bytes that can be read */
    for (int k = 0; k < N + 2; k++) {
        memset(g, 0x55, sizeof g);
        int len = 0, r = freadline(fp, g + 1, n);
        CHECK(g[0] == 0x55, "nothing is written before the buffer");
        for (int i = 0; i < N + 4; i++) if (i >= n) CHECK(g[1 + i] == 0x55, "nothing is written past the buffer");
        int e = p;
        for (int i = 0; i < N; i++) if (e == i && i < limit && in[i] != '\r' && in[i] != '\n') e++;
        len = e - p;
        if (r == -ENOSPC) { CHECK(len + 1 > n, "a line is refused only when it does not fit"); REACH("toolong"); return; }
        CHECK(len + 1 <= n, "a line that does not fit is -ENOSPC");
        ASSUME(len + 1 <= n);
        if (e == limit) {
            if (fail >= 0) { CHECK(r < 0, "a read error is reported"); CHECK(r == -EIO, "with its errno"); REACH("error"); return; }
            CHECK(r == len, "a last line without terminator is returned");
            for (int i = 0; i < N; i++) if (i < len) CHECK(g[1 + i] == in[p + i], "the line is intact");
            CHECK(g[1 + len] == 0, "the line is terminated");
            p = e;
            if (len == 0) { CHECK(eof, "end of input"); REACH("eof"); return; }
            continue;
        }
        CHECK(r == len, "the length of the line is returned");
        for (int i = 0; i < N; i++) if (i < len) CHECK(g[1 + i] == in[p + i], "the line is intact");
        CHECK(g[1 + len] == 0, "the line is terminated");
        p = e + 1;
        if (in[e] == '\r' && p < limit && in[p] == '\n') p++;
        CHECK(!bad, "at most one character is pushed back");
    }
    CHECK(0, "every stream ends");
}
