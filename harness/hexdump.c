//@ prop C45
//@ srcs src/hexdump.c
//@ default unwind=130 flags="--max-field-sensitivity-array-size 256"
//@ job name=dump for=N:0..3,7..9,15..18,31..33/0..50 D=LEN={N} bound="every buffer of {N} bytes, offsets or addresses, every point of failure of the writer"
//@ job name=file for=N:1,16..17,33/1..49 D=LEN={N} cc="-Dfwrite=vh_fwrite -Dferror=vh_ferror -Dfeof=vh_feof" bound="fhexdump of {N} bytes, every point of failure of the stream"
#include "vh.h"
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include "utils/hexdump.h"

#define CAP   (LEN ? LEN : 1)
#define LINES ((LEN + 15) / 16)
static uint8_t B[CAP];
#define BUF (B + CAP - LEN)

static size_t Base; static unsigned Calls, FailAt; static int FailWith, Ctx;

static uint8_t hexc(unsigned v) { return v < 10 ? '0' + v : 'a' + v - 10; }

/* one line of `hexdump -C` with a sixteen digit offset */
static void line(const char *s, size_t n)
{
    unsigned k = Calls, m = LEN - 16 * k > 16 ? 16 : LEN - 16 * k;
    size_t off = Base + 16 * k;
    CHECK(k < LINES, "one line for each sixteen bytes");
    CHECK(n == 69 + 1 + m + 2, "the line ends after the text column");
    for (int i = 0; i < 16; i++) CHECK((uint8_t)s[i] == hexc((off >> (60 - 4 * i)) & 15), "the line starts with the offset of its first byte");
    CHECK(s[16] == ' ' && s[17] == ' ', "two spaces");
    for (unsigned i = 0; i < 16; i++) {
        unsigned c = 18 + 3 * i + (i >= 8);
        if (i < m) {
            uint8_t v = BUF[16 * k + i];
            CHECK((uint8_t)s[c] == hexc(v >> 4) && (uint8_t)s[c + 1] == hexc(v & 15), "each byte in hex in its column");
            CHECK((uint8_t)s[70 + i] == (v >= 32 && v < 127 ? v : '.'), "each byte as text, a dot if unprintable");
        } else CHECK(s[c] == ' ' && s[c + 1] == ' ', "columns past the last byte are blank");
        CHECK(s[c + 2] == ' ', "columns are separated");
    }
    CHECK(s[42] == ' ' && s[67] == ' ' && s[68] == ' ', "gaps after the eighth and sixteenth byte");
    CHECK(s[69] == '|' && s[70 + m] == '|' && s[71 + m] == '\n', "the text is fenced and the line ends");
}

static int writer(void *ctx, const char *s, size_t n)
{
    CHECK(ctx == &Ctx, "the writer's context is passed intact");
    CHECK(Calls <= FailAt, "nothing is written after the writer failed");
    line(s, n);
    return Calls++ == FailAt ? FailWith : 0;
}

void h_dump(void)
{
    hex_dumper d;
    for (int i = 0; i < LEN; i++) BUF[i] = nd_u8();
    unsigned flags = nd_bool() ? HEX_DUMP_PTR : HEX_DUMP_OFFSET;
    Base = flags ? (size_t)BUF : 0;
    FailAt = nd_small(0, LINES); FailWith = nd_int(); ASSUME(FailWith < 0);
    hex_dump_init(&d, writer, &Ctx, flags);
    int r = hex_dump_write(&d, BUF, LEN);
    if (FailAt < LINES) {
        CHECK(r == FailWith, "the writer's error is returned intact");
        CHECK(Calls == FailAt + 1, "the dump stops at the error");
#if LEN > 0
        REACH("failed");
#endif
    } else {
        CHECK(r == 0 && Calls == LINES, "every line is written");
        CHECK(hex_dump_close(&d) == 0, "close succeeds");
        REACH("done");
    }
}

/* ---- fhexdump over a stream that fails ---- */
static FILE *const Fp = (FILE *)&Ctx;
static int Eof, Err;
size_t vh_fwrite(const void *p, size_t sz, size_t nm, FILE *fp)
{
    CHECK(fp == Fp, "written to the given stream");
    CHECK(Calls <= FailAt, "nothing is written after the stream failed");
    line(p, sz * nm);
    if (Calls++ != FailAt) return nm;
    Err = 1; errno = FailWith;
    return 0;
}
int vh_ferror(FILE *fp) { (void)fp; return Err; }
int vh_feof(FILE *fp) { (void)fp; return Eof; }

void h_file(void)
{
    for (int i = 0; i < LEN; i++) BUF[i] = nd_u8();
    FailAt = nd_small(0, LINES); FailWith = nd_int(); ASSUME(FailWith > 0 && FailWith < 4096);
    Eof = nd_bool();
    int r = fhexdump(Fp, BUF, LEN);
    if (FailAt < LINES) {
        CHECK(r != 0, "a failed stream is reported");
        CHECK(r < 0, "as a negative error");
        CHECK(Calls == FailAt + 1, "and the dump stops there");
#if LEN > 0
        REACH("failed");
#endif
    } else {
        CHECK(r == 0 && Calls == LINES, "every line is written");
        REACH("done");
    }
}
