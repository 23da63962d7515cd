//@ prop C14
//@ srcs src/humanize.c
//@ job name=text for=U:0..6 bound="every 64-bit size whose unit is 1024^U (all seven units together cover every size), 14-byte buffer" D=U={U},BUF=14,VH_DIGITS=4 unwind=16
//@ job name=small for=K:0,1,5,8/0..13 bound="every 64-bit size, a buffer of K bytes" D=BUF={K},VH_DIGITS=4 unwind=18
#include "vh.h"
#include <string.h>
#include "utils/strutils.h"

#ifdef U
static const char *const NAME[] = { "bytes", "kB", "MB", "GB", "TB", "PB", "EB" };
void h_text(void)
{
    char b[BUF]; uint64_t n = nd_u64();
    if (U < 6) ASSUME(n <= 1ull << (10 * U + 10));
    if (U > 0) ASSUME(n > 1ull << (10 * U - 0));
    CHECK(humanize_size(b, sizeof b, n) == b, "the caller's buffer is returned");
    /* parse the text back */
    unsigned w = 0, f = 0, nf = 0; int p = 0, i;
    for (i = 0; i < 4 && b[p] >= '0' && b[p] <= '9'; i++) w = w * 10 + (unsigned)(b[p++] - '0');
    CHECK(i > 0, "it starts with a number");
    if (b[p] == '.') { p++; for (; nf < 2 && b[p] >= '0' && b[p] <= '9'; nf++) f = f * 10 + (unsigned)(b[p++] - '0'); CHECK(nf == 2, "two decimals"); }
    CHECK(b[p] == ' ', "a blank after the number");
    ASSUME(b[p] == ' ' && p <= 8);
    p++;
    const char *u = NAME[U]; int e = 1, prev = 0;
    for (i = 0; ; i++) { if (b[p + i] != u[i]) e = 0; if (!u[i]) break; }
    CHECK(e, "the unit is the largest one below the size");
    unsigned __int128 one = (unsigned __int128)1 << (10 * U);
    uint64_t whole = (uint64_t)(n >> (10 * U)), rem = n - (whole << (10 * U));
    CHECK(w == whole, "the whole number is exact");
    if (U) {
        if (rem == 0) CHECK(nf == 0 || f == 0, "a whole multiple has no fraction");
        else {
            CHECK(nf == 2, "a fraction is shown");
            /* f/100 <= rem/unit < (f+1)/100 */
            unsigned __int128 c = (unsigned __int128)rem * 100;
            CHECK((unsigned __int128)f << (10 * U) <= c && c < (unsigned __int128)(f + 1) << (10 * U), "the fraction is the first two decimals, truncated");
        }
    }
    (void)prev; (void)one;
    REACH("end");
}
#else
void h_small(void)
{
    char g[BUF + 2]; uint64_t n = nd_u64();
    memset(g, 0x7e, sizeof g);
    humanize_size(g + 1, BUF, n);
    CHECK(g[0] == 0x7e && g[BUF + 1] == 0x7e, "no byte outside the stated buffer is written");
    int z = 0;
    for (int i = 0; i < BUF; i++) if (!g[1 + i]) z = 1;
    if (BUF) CHECK(z, "the text is terminated inside the buffer");
    REACH("end");
}
#endif
