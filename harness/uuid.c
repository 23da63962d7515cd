//@ prop C04
//@ srcs src/uuid.c
//@ job name=tostring bound="every 16-byte value, every output size <= 40, tail-aligned" unwind=42
//@ job name=roundtrip bound="every 16-byte value, as printed and with every letter in either case" unwind=42
//@ job name=parse bound="every string of 36 arbitrary bytes (and every shorter one they contain)" unwind=42
//@ job name=parse_size bound="every string of <= 38 digits/dashes, every buffer size <= 17, tail-aligned" unwind=42
//@ job name=generate bound="every value of the random source, every buffer size <= 18" unwind=20
#include "vh.h"
#include <string.h>
#include <errno.h>
#include "utils/uuid.h"

int getentropy(void *p, size_t n) { uint8_t *b = p; for (size_t i = 0; i < n; i++) b[i] = nd_u8(); return 0; }

static int hexv(uint8_t c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}
static int dash(int i) { return i == 8 || i == 13 || i == 18 || i == 23; }

void h_tostring(void)
{
    uint8_t id[16]; char buf[41];
    for (int i = 0; i < 16; i++) id[i] = nd_u8();
    for (int i = 0; i < 41; i++) buf[i] = 'z';
    size_t n = nd_small(0, 40);
    char *s = buf + 41 - n;
    int r = uuid_tostring(s, n, id);
    CHECK(buf[40 - n] == 'z', "nothing is written before the buffer");
    if (n < 37) { CHECK(r < 0, "a buffer too small for the text is refused"); REACH("refused"); return; }
    CHECK(r == 37, "36 characters and the terminator");
    CHECK(s[36] == 0, "the text is terminated");
    int k = 0;
    for (int i = 0; i < 36; i++) {
        if (dash(i)) CHECK(s[i] == '-', "dashes separate 8-4-4-4-12 digits");
        else { CHECK(hexv(s[i]) == ((k & 1) ? id[k/2] & 15 : id[k/2] >> 4), "digits are the bytes in order"); k++; }
    }
    REACH("printed");
}

void h_roundtrip(void)
{
    uint8_t id[16], back[16]; char s[37];
    for (int i = 0; i < 16; i++) id[i] = nd_u8();
    int r = uuid_tostring(s, sizeof s, id);
    CHECK(r == 37, "printing succeeds");
    uint64_t cs = nd_u64();
    for (int i = 0; i < 36; i++) {
        if (((cs >> i) & 1) && s[i] >= 'A' && s[i] <= 'F') s[i] += 32;
        else if (((cs >> i) & 1) && s[i] >= 'a' && s[i] <= 'f') s[i] -= 32;
    }
    r = uuid_fromstring(back, sizeof back, s);
    CHECK(r == 16, "the printed text parses");
    CHECK(vh_eq(id, back, 16, 16), "parse(print(id)) == id");
    REACH("end");
}

static void check_parse(const char *str, int max, size_t n)
{
    uint8_t buf[18];
    for (int i = 0; i < 18; i++) buf[i] = 0xa5;
    uint8_t *id = buf + 18 - n;
    int r = uuid_fromstring(id, n, str);
    CHECK(buf[17 - n] == 0xa5, "nothing is written before the buffer");
    if (n > 16) CHECK(buf[17] == 0xa5, "nothing is written past 16 bytes");
    if (n < 16) { CHECK(r == -ENOSPC || r == -EINVAL, "a buffer below 16 bytes is refused"); return; }
    int len = 0, nh = 0, other = 0;
    for (len = 0; len < max && str[len]; len++) { if (hexv(str[len]) >= 0) nh++; else if (str[len] != '-') other = 1; }
    if (len != 36 || other || nh != 32) { CHECK(r == -EINVAL, "text that is not a UUID is refused"); return; }
    CHECK(r == 16, "32 digits and 4 dashes are accepted");
}

void h_parse(void)
{
    char t[37];
    for (int i = 0; i < 36; i++) t[i] = (char)nd_u8();
    t[36] = 0;
    check_parse(t, 36, 16);
    REACH("end");
}

void h_parse_size(void)
{
    char t[39]; static const char set[] = "-0aF";
    for (int i = 0; i < 38; i++) t[i] = set[i & 3];
    t[38] = 0;
    for (int i = 0; i < 38; i++) t[i] = (char)nd_u8(), (void)0;
    for (int i = 0; i < 38; i++) ASSUME(t[i] == '-' || t[i] == '7');
    check_parse(t + nd_small(0, 38), 38, nd_small(0, 17));
    REACH("end");
}
void h_generate(void)
{
    uint8_t buf[19];
    for (int i = 0; i < 19; i++) buf[i] = 0xa5;
    size_t n = nd_small(0, 18);
    uint8_t *id = buf + 19 - n;
    int r = uuid_generate(id, n);
    CHECK(buf[18 - n] == 0xa5, "nothing is written before the buffer");
    if (n < 16) { CHECK(r == (n ? -ENOSPC : -EINVAL), "a buffer below 16 bytes is refused"); return; }
    CHECK(r == 16, "16 bytes are generated");
    for (size_t i = 16; i < 18; i++) if (i < n) CHECK(id[i] == 0xa5, "nothing is written past 16 bytes");
    CHECK((id[6] & 0xf0) == 0x40, "version 4");
    CHECK((id[8] & 0xc0) == 0x80, "RFC 4122 variant");
    REACH("end");
}
