//@ prop C05
//@ srcs src/ulid.c
//@ job name=tostring bound="every 128-bit value, every output size <= 40, tail-aligned" unwind=42
//@ job name=roundtrip bound="every 128-bit value" unwind=42
//@ job name=order bound="every pair of 128-bit values" unwind=42
//@ job name=parse bound="every string of <= 28 arbitrary bytes, every buffer size <= 18, tail-aligned" unwind=42
//@ job name=generate bound="every random source, every buffer size <= 18" unwind=20
//@ job name=clock bound="every clock value below 2^40 seconds" unwind=20
#include "vh.h"
#include <string.h>
#include <errno.h>
#include <sys/time.h>
#include "utils/ulid.h"

static uint64_t Sec, Usec;
int getentropy(void *p, size_t n) { uint8_t *b = p; for (size_t i = 0; i < n; i++) b[i] = nd_u8(); return 0; }
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = Sec; tv->tv_usec = Usec; return 0; }

static const char A[] = "0123456789ABCDEFGHJKMNPQRSTVWXYZ";

/* digit k (0 = most significant) of the 128-bit number; 130 bits in 26 digits */
static unsigned digit(const uint8_t *id, int k)
{
    unsigned v = 0;
    for (int b = 0; b < 5; b++) {
        int bit = k * 5 + b - 2;     /* 2 leading zero bits */
        v = v * 2 + (bit < 0 ? 0 : (id[bit / 8] >> (7 - bit % 8)) & 1);
    }
    return v;
}
static int value(uint8_t c)
{
    if (c >= 'a' && c <= 'z') c -= 32;
    for (int i = 0; i < 32; i++) if (A[i] == c) return i;
    return -1;
}

void h_tostring(void)
{
    uint8_t id[16]; char buf[41];
    for (int i = 0; i < 16; i++) id[i] = nd_u8();
    for (int i = 0; i < 41; i++) buf[i] = '~';
    size_t n = nd_small(0, 40);
    char *s = buf + 41 - n;
    int r = ulid_tostring(s, n, id);
    CHECK(buf[40 - n] == '~', "nothing is written before the buffer");
    if (n < 27) { CHECK(r < 0, "a buffer too small for the text is refused"); REACH("refused"); return; }
    CHECK(r == 26 && s[26] == 0, "26 characters, terminated");
    for (int k = 0; k < 26; k++) CHECK(s[k] == A[digit(id, k)], "each digit is the next five bits, most significant first");
    REACH("printed");
}

void h_roundtrip(void)
{
    uint8_t id[16], back[16]; char s[27];
    for (int i = 0; i < 16; i++) id[i] = nd_u8();
    CHECK(ulid_tostring(s, sizeof s, id) == 26, "printing succeeds");
    CHECK(ulid_fromstring(back, sizeof back, s) == 16, "the printed text parses");
    CHECK(vh_eq(id, back, 16, 16), "parse(print(id)) == id");
    REACH("end");
}

void h_order(void)
{
    uint8_t a[16], b[16]; char s[27], t[27];
    for (int i = 0; i < 16; i++) { a[i] = nd_u8(); b[i] = nd_u8(); }
    ulid_tostring(s, sizeof s, a); ulid_tostring(t, sizeof t, b);
    int c = 0, d = 0;
    for (int i = 0; i < 16; i++) if (!c) c = a[i] < b[i] ? -1 : a[i] > b[i];
    for (int i = 0; i < 26; i++) if (!d) d = s[i] < t[i] ? -1 : s[i] > t[i];
    CHECK(c == d, "text order equals numeric order");
    REACH("end");
}

void h_parse(void)
{
    uint8_t buf[19]; char t[30];
    for (int i = 0; i < 29; i++) t[i] = (char)nd_u8();
    t[29] = 0;
    char *str = t + 29 - nd_small(0, 28);
    for (int i = 0; i < 19; i++) buf[i] = 0xa5;
    size_t n = nd_small(0, 18);
    uint8_t *id = buf + 19 - n;
    int r = ulid_fromstring(id, n, str);
    CHECK(buf[18 - n] == 0xa5, "nothing is written before the buffer");
    if (n < 16) { CHECK(r == -ENOSPC || r == -EINVAL, "a buffer below 16 bytes is refused"); REACH("small"); return; }
    for (size_t i = 16; i < 18; i++) if (i < n) CHECK(id[i] == 0xa5, "nothing is written past 16 bytes");
    int len = 0, bad = 0; unsigned v[29];
    for (len = 0; len < 29 && str[len]; len++) { int x = value(str[len]); if (x < 0) bad = 1; v[len] = x; }
    if (len != 26 || bad || v[0] > 7) { CHECK(r == -EINVAL, "text that is not a 128-bit ULID is refused"); REACH("invalid"); return; }
    CHECK(r == 16, "a well-formed ULID is accepted");
    for (int k = 0; k < 26; k++) CHECK(digit(id, k) == v[k], "parsed bits are the ones the digits denote");
    REACH("valid");
}

void h_generate(void)
{
    uint8_t buf[19];
    for (int i = 0; i < 19; i++) buf[i] = 0xa5;
    size_t n = nd_small(0, 18);
    uint8_t *id = buf + 19 - n;
    int r = ulid_generate(id, n);
    CHECK(buf[18 - n] == 0xa5, "nothing is written before the buffer");
    if (n < 16) { CHECK(r == -ENOSPC || (n == 0 && r == -EINVAL), "a buffer below 16 bytes is refused"); return; }
    CHECK(r == 16, "16 bytes are generated");
    for (size_t i = 16; i < 18; i++) if (i < n) CHECK(id[i] == 0xa5, "nothing is written past 16 bytes");
    REACH("end");
}

void h_clock(void)
{
    uint8_t id[16];
    Sec = nd_u64(); Usec = nd_u32();
    ASSUME(Sec < (1ull << 40) && Usec < 1000000);
    uint64_t ms = (Sec * 1000 + Usec / 1000) & 0xffffffffffffull;
    CHECK(ulid_generate(id, 16) == 16, "16 bytes are generated");
    uint64_t got = 0;
    for (int i = 0; i < 6; i++) got = got << 8 | id[i];
    CHECK(got == ms, "the leading 48 bits are the millisecond clock");
    REACH("end");
}
