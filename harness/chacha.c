//@ prop C44
//@ srcs
//@ default solver=kissat unwind=70 flags="--max-field-sensitivity-array-size 256"
//@ job name=keystream solver=z3d bound="every key, nonce and counter: the 64 byte block and the next counter" w=9
//@ job name=tail for=N:1,8,63,65 D=LEN={N} unwind=140 bound="every state: {N} bytes are a prefix of the same stream and nothing past them is written"
//@ job name=setup bound="every 256-bit and 128-bit key, every nonce"
#include "vh.h"
#include <sys/types.h>
#include <stddef.h>
typedef struct { uint32_t input[16]; } chacha_ctx;
#define KEYSTREAM_ONLY
#include "chacha_private.h"

static uint32_t r(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
static void qr(uint32_t *s, int a, int b, int c, int d)
{
    s[a] += s[b]; s[d] ^= s[a]; s[d] = r(s[d], 16);
    s[c] += s[d]; s[b] ^= s[c]; s[b] = r(s[b], 12);
    s[a] += s[b]; s[d] ^= s[a]; s[d] = r(s[d], 8);
    s[c] += s[d]; s[b] ^= s[c]; s[b] = r(s[b], 7);
}
static void block(const uint32_t in[16], uint8_t out[64])
{
    uint32_t s[16];
    for (int i = 0; i < 16; i++) s[i] = in[i];
    for (int i = 0; i < 10; i++) {
        qr(s, 0, 4, 8, 12); qr(s, 1, 5, 9, 13); qr(s, 2, 6, 10, 14); qr(s, 3, 7, 11, 15);
        qr(s, 0, 5, 10, 15); qr(s, 1, 6, 11, 12); qr(s, 2, 7, 8, 13); qr(s, 3, 4, 9, 14);
    }
    for (int i = 0; i < 16; i++) { s[i] += in[i]; for (int b = 0; b < 4; b++) out[4 * i + b] = s[i] >> (8 * b); }
}
void h_keystream(void)
{
    chacha_ctx x; uint32_t in[16]; uint8_t want[64], got[64];
    for (int i = 0; i < 16; i++) x.input[i] = in[i] = nd_u32();

    block(in, want);
    chacha_encrypt_bytes(&x, got, got, 64);
    for (int i = 0; i < 64; i++) CHECK(got[i] == want[i], "the ChaCha20 key stream block");
    uint64_t ctr = ((uint64_t)in[13] << 32 | in[12]) + 1;
    CHECK(x.input[12] == (uint32_t)ctr && x.input[13] == (uint32_t)(ctr >> 32), "the 64-bit counter steps by one");
    for (int i = 0; i < 16; i++) if (i != 12 && i != 13) CHECK(x.input[i] == in[i], "the rest of the state stays");
    REACH("end");
}
#ifdef LEN
void h_tail(void)
{
    chacha_ctx x, y; uint8_t a[LEN + 2], b[128];
    for (int i = 0; i < 16; i++) x.input[i] = y.input[i] = i * 0x01020304u;
    for (int i = 0; i < LEN + 2; i++) a[i] = 0x55;
    x.input[12] = y.input[12] = nd_bool() ? 0xffffffff : 5; 
    chacha_encrypt_bytes(&y, b, b, 128);
    chacha_encrypt_bytes(&x, a, a, LEN);
    for (int i = 0; i < LEN; i++) CHECK(a[i] == b[i], "a short request is a prefix of the stream");
    CHECK(a[LEN] == 0x55 && a[LEN + 1] == 0x55, "nothing past the request is written");
    REACH("end");
}
#endif
void h_setup(void)
{
    chacha_ctx x; uint8_t k[32], iv[8];
    static const char s32[] = "expand 32-byte k", s16[] = "expand 16-byte k";
    for (int i = 0; i < 32; i++) k[i] = nd_u8();
    for (int i = 0; i < 8; i++) iv[i] = nd_u8();
    for (int bits = 256; bits >= 128; bits -= 128) {
        chacha_keysetup(&x, k, bits, 0); chacha_ivsetup(&x, iv);
        for (int i = 0; i < 64; i++) {
            uint8_t got = x.input[i / 4] >> (8 * (i & 3));
            uint8_t want = i < 16 ? (bits == 256 ? s32 : s16)[i] : i < 32 ? k[i - 16] : i < 48 ? k[i - (bits == 256 ? 16 : 32)] : i < 56 ? 0 : iv[i - 56];
            CHECK(got == want, "constants, key, zero counter, nonce in their places");
        }
    }
    REACH("end");
}
