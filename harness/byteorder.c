//@ prop C01
//@ srcs
//@ job name=encdec bound="all 16/32/64-bit values, all byte strings of that width, all doubles" unwind=10
//@ job name=swab bound="all 16/32/64-bit values" unwind=4
//@ job name=consts bound="all 16/32/64-bit values, both constant and run-time forms" unwind=4
#include "vh.h"
#include <string.h>
#include "fast/encdec.h"
#include "fast/byteorder.h"

/* reference: value of n bytes, most/least significant first */
static uint64_t ref_le(const uint8_t *p, int n) { uint64_t v = 0; for (int i = n - 1; i >= 0; i--) v = v * 256 + p[i]; return v; }
static uint64_t ref_be(const uint8_t *p, int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v * 256 + p[i]; return v; }

#define ENCDEC(E, R, B, T) do { \
        uint8_t *e; T v = (T)nd_u64(); uint8_t in[B/8]; \
        buf[8] = 0xa5; \
        uint8_t *q = buf + 8 - B/8; \
        e = enc_##E##_u##B(q, v); \
        CHECK(e == buf + 8, "encoder returns the position after the encoded bytes"); \
        CHECK(R(q, B/8) == v, "encoded bytes have the documented order"); \
        CHECK(dec_##E##_u##B(q) == v, "decode(encode(v)) == v"); \
        for (int i = 0; i < B/8; i++) in[i] = nd_u8(); \
        CHECK(dec_##E##_u##B(in) == R(in, B/8), "decoder reads the documented order"); \
        enc_##E##_u##B(q, dec_##E##_u##B(in)); \
        CHECK(memcmp(q, in, B/8) == 0, "encode(decode(b)) == b"); \
        CHECK(buf[8] == 0xa5, "encoder writes exactly its width"); \
    } while (0)

void h_encdec(void)
{
    uint8_t buf[9];
    ENCDEC(LE, ref_le, 16, uint16_t);
    ENCDEC(BE, ref_be, 16, uint16_t);
    ENCDEC(LE, ref_le, 32, uint32_t);
    ENCDEC(BE, ref_be, 32, uint32_t);
    ENCDEC(LE, ref_le, 64, uint64_t);
    ENCDEC(BE, ref_be, 64, uint64_t);
    /* doubles travel as their bit pattern */
    uint64_t bits = nd_u64(), back;
    double d, r;
    memcpy(&d, &bits, 8);
    uint8_t *e = enc_LE_float64(buf, d);
    CHECK(e == buf + 8 && ref_le(buf, 8) == bits, "LE double is its bit pattern, little-endian");
    r = dec_LE_float64(buf); memcpy(&back, &r, 8);
    CHECK(back == bits, "LE double round-trips bit-exactly");
    e = enc_BE_float64(buf, d);
    CHECK(e == buf + 8 && ref_be(buf, 8) == bits, "BE double is its bit pattern, big-endian");
    r = dec_BE_float64(buf); memcpy(&back, &r, 8);
    CHECK(back == bits, "BE double round-trips bit-exactly");
    REACH("end");
}

void h_swab(void)
{
    uint64_t v = nd_u64();
    uint8_t b[8];
    uint16_t v2 = (uint16_t)v; uint32_t v4 = (uint32_t)v;
    memcpy(b, &v2, 2); CHECK(__swab16(v2) == ref_be(b, 2), "swab16 reverses the bytes");
    memcpy(b, &v4, 4); CHECK(__swab32(v4) == ref_be(b, 4), "swab32 reverses the bytes");
    memcpy(b, &v, 8);  CHECK(__swab64(v) == ref_be(b, 8), "swab64 reverses the bytes");
    CHECK(__constant_swab16(v2) == __fswab16(v2), "constant and run-time swab16 agree");
    CHECK(__constant_swab32(v4) == __fswab32(v4), "constant and run-time swab32 agree");
    CHECK(__constant_swab64(v) == __fswab64(v), "constant and run-time swab64 agree");
    CHECK(__swab16(__swab16(v2)) == v2 && __swab32(__swab32(v4)) == v4 && __swab64(__swab64(v)) == v, "swab is an involution");
    REACH("end");
}

void h_consts(void)
{
    uint64_t v = nd_u64(); uint32_t v4 = (uint32_t)v; uint16_t v2 = (uint16_t)v;
    uint8_t b[8];
    uint16_t o2; uint32_t o4; uint64_t o8;
    o2 = __cpu_to_le16(v2); memcpy(b, &o2, 2); CHECK(ref_le(b, 2) == v2, "cpu_to_le16 stores little-endian");
    o4 = __cpu_to_le32(v4); memcpy(b, &o4, 4); CHECK(ref_le(b, 4) == v4, "cpu_to_le32 stores little-endian");
    o8 = __cpu_to_le64(v);  memcpy(b, &o8, 8); CHECK(ref_le(b, 8) == v,  "cpu_to_le64 stores little-endian");
    CHECK(__le16_to_cpu(__cpu_to_le16(v2)) == v2 && __le32_to_cpu(__cpu_to_le32(v4)) == v4 && __le64_to_cpu(__cpu_to_le64(v)) == v, "le round trip");
    o2 = __cpu_to_be16(v2); memcpy(b, &o2, 2); CHECK(ref_be(b, 2) == v2, "cpu_to_be16 stores big-endian");
    o4 = __cpu_to_be32(v4); memcpy(b, &o4, 4); CHECK(ref_be(b, 4) == v4, "cpu_to_be32 stores big-endian");
    o8 = __cpu_to_be64(v);  memcpy(b, &o8, 8); CHECK(ref_be(b, 8) == v,  "cpu_to_be64 stores big-endian");
    CHECK(__be16_to_cpu(__cpu_to_be16(v2)) == v2 && __be32_to_cpu(__cpu_to_be32(v4)) == v4 && __be64_to_cpu(__cpu_to_be64(v)) == v, "be round trip");
    o8 = htonll(v); memcpy(b, &o8, 8); CHECK(ref_be(b, 8) == v, "htonll is network order");
    CHECK(ntohll(htonll(v)) == v, "ntohll inverts htonll");
    o8 = __constant_htonll(v); memcpy(b, &o8, 8); CHECK(ref_be(b, 8) == v, "constant_htonll is network order");
    o4 = __constant_htonl(v4); memcpy(b, &o4, 4); CHECK(ref_be(b, 4) == v4, "constant_htonl is network order");
    o2 = __constant_htons(v2); memcpy(b, &o2, 2); CHECK(ref_be(b, 2) == v2, "constant_htons is network order");
    CHECK(__constant_ntohll(__constant_htonll(v)) == v && __constant_ntohl(__constant_htonl(v4)) == v4 && __constant_ntohs(__constant_htons(v2)) == v2, "constant ntoh inverts hton");
    REACH("end");
}
