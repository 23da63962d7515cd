/* Replay driver: feeds the solver's values to the harness, compiled natively. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>

static uint64_t *vals; static size_t nvals, pos;

uint64_t vh_next(void) { return pos < nvals ? vals[pos++] : 0; }
void vh_assume_fail(void) { fflush(stdout); fprintf(stderr, "VH-ASSUME: not satisfied\n"); _exit(77); }
void vh_check_fail(const char *m, const char *f, int l) { fflush(stdout); fprintf(stderr, "VH-FAIL: %s (%s:%d)\n", m, f, l); _exit(99); }
void vh_reach(const char *n) { fprintf(stderr, "VH-REACH: %s\n", n); }

extern void VH_ENTRY(void);

int main(void)
{
    const char *fn = getenv("VH_INPUT");
    if (fn) {
        FILE *fp = fopen(fn, "r"); char ln[128]; size_t cap = 0;
        if (!fp) { perror(fn); return 2; }
        while (fgets(ln, sizeof ln, fp)) {
            if (ln[0] == '#' || ln[0] == '\n') continue;
            if (nvals == cap) { cap = cap ? cap * 2 : 64; vals = realloc(vals, cap * sizeof *vals); }
            vals[nvals++] = strtoull(ln, 0, 0);
        }
        fclose(fp);
    }
    alarm(20);
    VH_ENTRY();
    fprintf(stderr, "VH-DONE\n");
    return 0;
}
