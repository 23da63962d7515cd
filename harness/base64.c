//@ prop C02
//@ srcs src/b64_encode.c src/b64_decode.c
//@ job name=encode for=N:0..7/0..20 bound="every input of N bytes, every destination size, dest tail-aligned" D=N={N} unwind={N+3}
//@ job name=encode_wrap for=N:54,55/54,55,110 bound="every input of N bytes (crosses the 72-column line break)" D=N={N} unwind={N*2} w=9
//@ job name=stream for=N:0..6/0..14 bound="every input of N bytes split in two pieces at every point" D=N={N} unwind={N+3}
//@ job name=wrap_stream bound="the line position counter survives splits: input of N bytes byte by byte, plus an empty piece anywhere" D=N=56 tD=N=110 unwind=60 tunwind=120 w=9
//@ job name=roundtrip for=N:0..3/0..7 bound="every input of N bytes" D=N={N} unwind={(N+2)//3*4+4}
//@ job name=decode for=N:0..5/0..8 bound="every text of N arbitrary bytes, every destination size, dest tail-aligned" D=N={N} unwind={N+2} w={N*2}
//@ job name=decode_stream for=N:0..4/0..6 bound="every text of N arbitrary bytes split at every point" D=N={N} unwind={N+2} w={N*3}
#include "vh.h"
#include <string.h>
#include <errno.h>
#include "utils/base64.h"

static const char ALPHA[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/* RFC 4648 text of in[0..n), newline every 72 chars of full groups and at the end */
static int ref_encode(char *o, const uint8_t *in, int n)
{
    int k = 0, groups = 0;
    for (int i = 0; i < n; i += 3) {
        unsigned a = in[i], b = i + 1 < n ? in[i+1] : 0, c = i + 2 < n ? in[i+2] : 0;
        unsigned v = (a << 16) | (b << 8) | c;
        o[k++] = ALPHA[(v >> 18) & 63];
        o[k++] = ALPHA[(v >> 12) & 63];
        o[k++] = i + 1 < n ? ALPHA[(v >> 6) & 63] : '=';
        o[k++] = i + 2 < n ? ALPHA[v & 63] : '=';
        if (i + 2 < n && ++groups % 18 == 0) o[k++] = '\n';
    }
    o[k++] = '\n';
    o[k] = 0;
    return k;
}
static int ref_len(int n) { return (n + 2) / 3 * 4 + n / 54 + 1; }   /* without the NUL */

static int ref_value(uint8_t c)
{
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    if (c == '+') return 62;
    if (c == '/') return 63;
    return -1;
}

#define OUT (N*4/3 + N/54 + 8)

void h_encode(void)
{
    uint8_t in[N+1]; char out[OUT], ref[OUT + 4];
    const int n = N;
    uint8_t *src = in + 1;
    for (int i = 0; i < n; i++) src[i] = nd_u8();
    int dl = (int)nd_small(0, OUT);
    char *dst = out + OUT - dl;
    int r = base64_encode_buf(dst, dl, src, n);
    int want = ref_len(n);
    if (r < 0) {
        CHECK(r == -ENOMEM, "the only encoding error is -ENOMEM");
        /* the classical 2*n rule is the documented-by-example size; never refuse a buffer twice the need */
        CHECK(dl < want + 1, "a destination that is large enough is not refused");
        REACH("refused");
        return;
    }
    ref_encode(ref, src, n);
    CHECK(r == want, "encoded length is the standard length");
    CHECK(r + 1 <= dl, "encoded text and its terminator fit the destination");
    CHECK(memcmp(dst, ref, want + 1) == 0, "encoded text is the RFC 4648 text");
    REACH("encoded");
}

void h_encode_wrap(void)
{
    static uint8_t in[N]; static char out[2 * N + 8], ref[2 * N + 8];
    for (int i = 0; i < N; i++) in[i] = nd_u8();
    int r = base64_encode_buf(out, sizeof out, in, N);
    int want = ref_encode(ref, in, N);
    CHECK(r == want, "encoded length is the standard length");
    CHECK(memcmp(out, ref, want + 1) == 0, "encoded text has a newline after every 72 characters");
    REACH("encoded");
}

void h_stream(void)
{
    uint8_t in[N+1]; char a[OUT + 8], b[OUT + 8];
    base64_encode_state s;
    const int n = N; int k = (int)nd_small(0, N);
    ASSUME(k <= n);
    for (int i = 0; i < N; i++) in[i] = nd_u8();
    base64_encode_init(&s);
    int la = base64_encode_block(&s, (char *)in, k, a);
    la += base64_encode_block(&s, (char *)in + k, n - k, a + la);
    la += base64_encode_finish(&s, a + la);
    int lb = ref_encode(b, in, n);
    CHECK(la == lb && memcmp(a, b, lb + 1) == 0, "encoding in pieces equals encoding at once");
    REACH("end");
}

void h_wrap_stream(void)
{
    static uint8_t in[N]; static char a[2 * N + 16], b[2 * N + 16];
    base64_encode_state s;
    int k = (int)nd_small(0, N), la = 0;
    for (int i = 0; i < N; i++) in[i] = 'x';
    base64_encode_init(&s);
    /* byte by byte, so every state is a boundary; one symbolic longer piece */
    for (int i = 0; i < N; i++) {
        if (i == k) la += base64_encode_block(&s, (char *)in + i, 0, a + la);
        la += base64_encode_block(&s, (char *)in + i, 1, a + la);
    }
    la += base64_encode_finish(&s, a + la);
    int lb = ref_encode(b, in, N);
    CHECK(la == lb && memcmp(a, b, lb + 1) == 0, "line breaks do not depend on how the input is split");
    REACH("end");
}

void h_roundtrip(void)
{
    uint8_t in[N+1]; char txt[2 * N + 8]; uint8_t back[2 * N + 8];
    const int n = N;
    for (int i = 0; i < N; i++) in[i] = nd_u8();
    int e = base64_encode_buf(txt, sizeof txt, in, n);
    CHECK(e == ref_len(n), "encoding into a large buffer succeeds");
    ASSUME(e == ref_len(n));
    int d = base64_decode_buf(back, sizeof back, txt, ref_len(n));
    CHECK(d == n, "decode(encode(x)) has the length of x");
    ASSUME(d == n);
    CHECK(memcmp(back, in, n) == 0, "decode(encode(x)) == x");
    REACH("end");
}

static int ref_decode(uint8_t *o, const uint8_t *s, int n)
{
    unsigned acc = 0; int bits = 0, k = 0;
    for (int i = 0; i < n; i++) {
        int v = ref_value(s[i]);
        if (v < 0) continue;
        acc = ((acc << 6) | (unsigned)v) & 0xffff; bits += 6;
        if (bits >= 8) { bits -= 8; o[k++] = (uint8_t)(acc >> bits); }
    }
    return k;
}

void h_decode(void)
{
    uint8_t txt[N+1], out[N+1], ref[N+1];
    const int n = N; int dl = (int)nd_small(0, N+1);
    uint8_t *src = txt + 1, *dst = out + N + 1 - dl;
    for (int i = 0; i < n; i++) src[i] = nd_u8();
    int r = base64_decode_buf(dst, dl, (char *)src, n);
    int want = ref_decode(ref, src, n);
    if (r < 0) {
        CHECK(r == -ENOMEM, "the only decoding error is -ENOMEM");
        CHECK(dl < want, "a destination that is large enough is not refused");
#if N >= 2
        REACH("refused");
#endif
        return;
    }
    CHECK(r <= dl, "decoded bytes fit the destination");
    CHECK(r == want, "decoded length counts every complete byte");
    ASSUME(r == want);
    CHECK(vh_eq(dst, ref, want, N), "decoded bytes are the denoted ones; other characters are skipped");
    REACH("decoded");
}

void h_decode_stream(void)
{
    uint8_t txt[N+1], out[N + 2], ref[N + 2];
    base64_decode_state s;
    const int n = N; int k = (int)nd_small(0, N);
    ASSUME(k <= n);
    for (int i = 0; i < N; i++) txt[i] = nd_u8();
    base64_decode_init(&s);
    int d = base64_decode_block(&s, (char *)txt, k, (char *)out);
    CHECK(d >= 0 && d <= k, "a piece never decodes to more bytes than characters");
    ASSUME(d >= 0 && d <= k);
    d += base64_decode_block(&s, (char *)txt + k, n - k, (char *)out + d);
    int want = ref_decode(ref, txt, n);
    CHECK(d == want, "decoding in pieces gives the same length");
    ASSUME(d == want);
    CHECK(vh_eq(out, ref, want, N), "decoding in pieces gives the same bytes");
    REACH("end");
}
