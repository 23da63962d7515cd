/* Reached from src/arc4random.c after it has taken in the real ChaCha: from
 * here on the generator's calls go to the harness, which stands for "any key
 * stream".  ChaCha itself is decided by harness/chacha.c. */
#include_next <utils/arc4random.h>
#ifndef VH_ARC4
#define VH_ARC4 1
static void vh_keysetup(chacha_ctx *x, const u8 *k, u32 kbits, u32 ivbits);
static void vh_ivsetup(chacha_ctx *x, const u8 *iv);
static void vh_encrypt(chacha_ctx *x, const u8 *m, u8 *c, u32 bytes);
#define chacha_keysetup      vh_keysetup
#define chacha_ivsetup       vh_ivsetup
#define chacha_encrypt_bytes vh_encrypt
#endif
