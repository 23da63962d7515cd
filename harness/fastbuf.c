//@ prop C22
//@ srcs
//@ default flags="--max-field-sensitivity-array-size 256 --object-bits 14"
//@ job name=fbuf for=S:0..5/0..8 bound="every byte buffer of capacity S and every length up to it with any content, then every operation with 0..6 bytes" D=S={S} unwind=18
#include "vh.h"
#include <string.h>
#include <stdlib.h>
#include "fast/buf.h"
#ifdef VH_CBMC
#define NOFAIL(p) __CPROVER_assume((p) != 0)
#else
#define NOFAIL(p) ((void)(p))
#endif
static void op(unsigned c, size_t len, size_t n)
{
    fast_buf b; uint8_t r[S + 8], x[8]; size_t rn = len;
    b.buf = S ? malloc(S) : 0; if (S) NOFAIL(b.buf);
    b.cap = S; b.size = len;
    for (size_t i = 0; i < len; i++) b.buf[i] = r[i] = nd_u8();
    for (size_t i = 0; i < n; i++) x[i] = nd_u8();
    switch (c) {
    case 0: CHECK(fast_buf_append_buf(&b, x, n) == &b, "the buffer is returned"); for (size_t i = 0; i < n; i++) r[rn++] = x[i]; break;
    case 1: CHECK(fast_buf_append_byte(&b, x[0]) == &b, "the buffer is returned"); r[rn++] = x[0]; break;
    case 2: fast_buf_reset(&b); rn = 0; break;
    case 3: fast_buf_grow(&b, n); CHECK(fast_buf_cap(&b) >= len + n, "the asked space is reserved");
            memcpy(fast_buf_ptr(&b) + len, x, n); fast_buf_advance(&b, n); for (size_t i = 0; i < n; i++) r[rn++] = x[i]; break;
    case 4: fast_buf_reserve(&b, n); CHECK(fast_buf_cap(&b) >= n, "the asked capacity is reserved"); break;
    case 5: fast_buf_fini(&b); fast_buf_init(&b, n); rn = 0; CHECK(fast_buf_cap(&b) >= n && fast_buf_cap(&b) > 0, "the asked capacity is there");
            fast_buf_append_byte(&b, x[0]); r[rn++] = x[0]; break;
    default: fast_buf_fini(&b); CHECK(fast_buf_len(&b) == 0 && fast_buf_cap(&b) == 0, "a finished buffer is empty"); REACH("fini"); return;
    }
    CHECK(fast_buf_len(&b) == rn && fast_buf_cap(&b) >= rn, "the length is the number of bytes held and fits the capacity");
    for (size_t i = 0; i < rn; i++) CHECK(fast_buf_ptr(&b)[i] == r[i], "the bytes are those put in, in order");
    if (b.cap) b.buf[b.cap - 1] = b.buf[b.cap - 1];
    fast_buf_fini(&b);
    REACH("op");
}
void h_fbuf(void)
{
    unsigned c = nd_u8(), l = nd_u8(), n = nd_u8();
    for (unsigned i = 0; i < 7; i++) if (c == i)
        for (size_t j = 0; j <= S; j++) if (l == j)
            for (size_t k = 1; k < 7; k++) if (n == k) op(i, j, k);
}
