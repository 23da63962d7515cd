//@ prop C44
//@ srcs
//@ default unwind=9 inc=inc_arc4 flags="--max-field-sensitivity-array-size 64"
//@ job name=history unwind=45 tD=STEPS=4 D=STEPS=3 flags="--unwindset _rs_random_buf.0:9" cc="-Dmemcpy=vh_mc -Dmemset=vh_ms" bound="every sequence of 3 (4) requests of 0 to 3000 bytes with forks between them, every entropy and key stream"
//@ job name=bytes w=90 for=N:0,3,7/0..9 D=CASE={N} unwind=1030 bound="request pattern {N}: contents against every key stream"
//@ job name=uniform solver=z3n unwind=45 flags="--unwindset arc4random_uniform.0:3" bound="every bound, every key stream, up to one rejection"
//@ job name=fair for=N:2,3,5,6,7,8,12/2,3,5,6,7,8,12,100,255 D=BND={N} unwind=45 flags="--unwindset arc4random_uniform.0:6" bound="bound {N}: every residue has the same number of accepted 32-bit draws"
/* arc4random.c is taken in as source so that its per-thread state is visible;
 * its cipher calls are diverted (inc_arc4). */
#include "vh.h"
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <assert.h>
#include <unistd.h>
#undef assert
static pid_t Pid = 100;
static pid_t vh_getpid(void) { return Pid; }
#define getpid vh_getpid
void *vh_mc(void *d, const void *s, size_t n); void *vh_ms(void *d, int c, size_t n);
#include "arc4random.c"
#undef assert
#undef memcpy
#undef memset

#define LIMIT 2048          /* REKEY_BASE doubled: the most a reseed may last */

static unsigned Nent, Nkey; static uint8_t Ent[40];
int getentropy(void *p, size_t n)
{
    CHECK(n == 40, "a reseed draws a full key and nonce");
    Nent++;
#ifndef STEPS
    for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = Ent[i];
#else
    (void)p;
#endif
    return 0;
}
static void vh_ivsetup(chacha_ctx *x, const u8 *iv) { (void)x; (void)iv; }

#if defined(STEPS) || defined(BND) || !defined(CASE)
static void vh_keysetup(chacha_ctx *x, const u8 *k, u32 kbits, u32 ivbits) { (void)x; (void)k; (void)ivbits; CHECK(kbits == 256, "a 256-bit key"); Nkey++; }
#endif

#ifdef STEPS
/* ---- when does it reseed?  contents do not matter here ---- */
#ifdef VH_CBMC
void *vh_mc(void *d, const void *s, size_t n) { CHECK(__CPROVER_w_ok(d, n) && __CPROVER_r_ok(s, n), "copies stay inside their buffers"); return d; }
void *vh_ms(void *d, int c, size_t n) { (void)c; CHECK(__CPROVER_w_ok(d, n), "wipes stay inside the buffer"); return d; }
#else
void *vh_mc(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *vh_ms(void *d, int c, size_t n) { return memset(d, c, n); }
#endif
static void vh_encrypt(chacha_ctx *x, const u8 *m, u8 *c, u32 bytes)
{
    (void)x; (void)m;
    if (bytes == 8) { uint64_t f = nd_u64(); for (int i = 0; i < 8; i++) c[i] = f >> (8 * i); }
}
static uint8_t Out[3000];
void h_history(void)
{
    size_t since = 0; int first = 1;
    for (int k = 0; k < STEPS; k++) {
        size_t n = (uint16_t)nd_u16(); unsigned was = Nent; int forked = nd_bool();
        ASSUME(n <= sizeof Out);
        if (forked) Pid++;
        arc4random_buf(Out, n);
        if (first || forked) CHECK(Nent > was, "a new process (or thread) seeds itself before its first output");
        if (Nent > was) since = n; else { since += n; CHECK(since < LIMIT, "no more than the limit is handed out between reseeds"); }
        CHECK(st.rs_have <= sizeof st.rs_buf, "the unread part fits the buffer");
        first = 0;
        if (k == STEPS - 1) REACH("end");
    }
}
#endif

#ifdef CASE
/* ---- which bytes does it hand out? ---- */
#define NREQ 4
static const unsigned Req[10][NREQ] = { { 4, 4, 8, 0 }, { 983, 1, 1, 4 }, { 984, 1, 4, 0 }, { 985, 4, 0, 1 }, { 1020, 4, 4, 4 },
    { 1023, 1, 900, 200 }, { 1024, 0, 4, 900 }, { 1500, 400, 200, 4 }, { 1968, 4, 1, 0 }, { 2047, 1, 2000, 4 } };
static struct { uint8_t b[1024]; } KK, Kold;
#define K KK.b
static uint8_t Out[2100]; static unsigned Mark = 1024; static int Fresh;
static void vh_keysetup(chacha_ctx *x, const u8 *k, u32 kbits, u32 ivbits)
{
    (void)x; (void)ivbits;
    CHECK(kbits == 256, "a 256-bit key"); Nkey++;
    if (Fresh) { int same = 1; for (int i = 0; i < 32; i++) if (k[i] != K[i] && k[i] != (uint8_t)(K[i] ^ Ent[i])) same = 0;
                 CHECK(same, "the next key is the unread head of the block, mixed with fresh entropy when there is some"); }
    Fresh = 0;
}
static void vh_encrypt(chacha_ctx *x, const u8 *m, u8 *c, u32 bytes)
{
    (void)x; (void)m;
    if (bytes == 8) { for (int i = 0; i < 8; i++) c[i] = i < 2 ? 0xff : 0; return; }    /* the longest life: 2047 */
    CHECK(bytes == 1024, "a refill is sixteen blocks");
    CHECK(!Fresh, "a block's head becomes the next key before the next block is drawn");
    for (unsigned i = 0; i < 1024; i++) c[i] = K[i] = nd_u8();
    Mark = 40; Fresh = 1;
}
void h_bytes(void)
{
    for (int i = 0; i < 40; i++) Ent[i] = nd_u8();
    for (int r = 0; r < NREQ; r++) {
        unsigned n = Req[CASE][r];
        unsigned m0 = Mark, j = nd_u16(), ent = Nent, keys = Nkey;      /* j: any position */
        Kold = KK;
        Out[n] = Out[n + 1] = 0xa5;
        arc4random_buf(Out, n);
        CHECK(!Fresh, "the key that made the block is replaced at once");
        if (Nkey == keys) {
            if (j < n) CHECK(Out[j] == Kold.b[m0 + j], "the next unread bytes of the key stream, in order");
            Mark = m0 + n;
        } else {
            /* the last block supplies the tail of the request */
            unsigned used = 1024 - 40 - st.rs_have;
            CHECK(st.rs_have <= 984, "the head of a block is never handed out");
            CHECK(used <= n, "no byte of the block is skipped");
            if (j < used) CHECK(Out[n - used + j] == K[40 + j], "the first unread bytes of the new block");
            if (n > used && Nent == ent && m0 < 1024 && j < 1024 - m0 && j < n - used) CHECK(Out[j] == Kold.b[m0 + j], "after the rest of the old block");
            Mark = 40 + used;
        }
        CHECK(Out[n] == 0xa5 && Out[n + 1] == 0xa5, "nothing past the request is written");
        CHECK(st.rs_have == 1024 - Mark || n == 0 || st.rs_have == 0, "what was handed out is used up");
        if (j < 1024 - st.rs_have) CHECK(st.rs_buf[j] == 0, "what was handed out (and the next key) is wiped");
        else if (j < 1024) CHECK(st.rs_buf[j] == K[j], "what is left is the unread key stream");
    }
    REACH("end");
}
#endif

#if !defined(STEPS) && !defined(CASE)
/* ---- bounded draws ---- */
static uint32_t Draw[4]; static unsigned Ndraw;
static void vh_encrypt(chacha_ctx *x, const u8 *m, u8 *c, u32 bytes) { (void)x; (void)m; (void)c; (void)bytes; }

/* give the generator a block whose words are Draw[0..3] and no reason to reseed */
static void preload(void)
{
    arc4random();
    for (int i = 0; i < 4; i++) {
        Draw[i] = nd_u32();
        for (int b = 0; b < 4; b++) st.rs_buf[1024 - 16 + 4 * i + b] = Draw[i] >> (8 * b);
    }
    st.rs_have = 16; st.rs_count = 1000;
}
void h_uniform(void)
{
    uint32_t n = nd_u32();
    preload();
    uint32_t min = n < 2 ? 0 : -n % n;
    ASSUME(Draw[0] >= min || Draw[1] >= min);
    uint32_t r = arc4random_uniform(n);
    CHECK(n < 2 ? r == 0 : r < n, "the value is below the bound");
    if (n >= 2) REACH("drawn");
}
#ifdef BND
void h_fair(void)
{
    /* accepted draws are exactly [min, 2^32): a multiple of BND of them, so
     * every residue is hit equally often; a rejected draw uses the next word */
    preload();
    const uint32_t min = (uint32_t)(0x100000000ULL % BND);
    ASSUME(Draw[1] >= min);
    uint32_t r = arc4random_uniform(BND);
    if (Draw[0] >= min) CHECK(r == Draw[0] % BND && st.rs_have == 12, "an acceptable draw is used");
    else CHECK(r == Draw[1] % BND && st.rs_have == 8, "a draw that would favour small values is rejected");
    if (Draw[0] >= min) REACH("accepted");
}
#endif
#endif
