//@ prop C42
//@ srcs src/hashfunc/murmur3_hash.c src/hashfunc/siphash24.c src/hashfunc/fnvhash.c src/hashfunc/hsieh_hash.c src/hashfunc/fasthash.c src/hashfunc/xxhash.c src/hashfunc/cityhash.c src/hashfunc/yorrike.c
//@ default solver=z3n unwind=80 flags="--max-field-sensitivity-array-size 512"
//@ job name=murmur32 for=N:0..9/0..17,31..37 D=LEN={N} bound="every input of {N} bytes, every seed"
//@ job name=murmur128 for=N:0..17,31..33/0..49 D=LEN={N} bound="every input of {N} bytes, every seed"
//@ job name=murmur64 for=N:0..17,31..33/0..49 D=LEN={N} bound="every input of {N} bytes, every seed"
//@ job name=fnv for=N:0..6/0..16 D=LEN={N} bound="every input of {N} bytes, every seed"
//@ job name=hsieh for=N:0..9/0..24 D=LEN={N} bound="every input of {N} bytes, every seed"
//@ job name=fast for=N:0..17/0..33 D=LEN={N} bound="every input of {N} bytes, every seed"
//@ job name=sip solver=kissat for=N:0..1,3..4,7..9,15/0..33 D=LEN={N} bound="every input of {N} bytes, every 128-bit key"
//@ job name=xx32 cc="-Dmemcpy=vh_mc" for=N:0..9,15..21,32..33/0..49 D=LEN={N},SLACK=1 bound="every input of {N} bytes, every seed"
//@ job name=xx64 cc="-Dmemcpy=vh_mc" for=N:0..13,31..37,44,64..65/0..80 D=LEN={N},SLACK=1 bound="every input of {N} bytes, every seed"
//@ job name=stream32 cc="-Dmemcpy=vh_mc" for=N:100..101,301,1507,1600,1605,1616,1701,1716,1803,3305,3316,3320/0,100..101,300..303,1500..1515,1600..1616,1700..1717,1800..1818,3300..3333 D=LEN={N//100},K={N%100},SLACK=1 bound="every input of {N//100} bytes in pieces of {N%100} and the rest, every seed"
//@ job name=stream64 cc="-Dmemcpy=vh_mc" for=N:100..101,301,3107,3200,3205,3232,3301,3332,3413,6505,6532,6540/0,100..101,300..303,3100..3131,3200..3232,3300..3333,6500..6565 D=LEN={N//100},K={N%100},SLACK=1 bound="every input of {N//100} bytes in pieces of {N%100} and the rest, every seed"
//@ job name=split3 cc="-Dmemcpy=vh_mc" for=N:170309,330515,491733,650140/170116,330117,330515,331533,491733,500131,650140,651033,653264 D=LEN={N//10000},K={N//100%100},L={N%100},SLACK=1 bound="every input of {N//10000} bytes in three pieces cut at {N//100%100} and {N%100}, every seed"
//@ job name=canon bound="every hash value" D=LEN=1
//@ job name=city cc="-Dmemcpy=vh_mc" for=N:0..9,12,15..17,24,31..33,48,63..65,100,127..129/0..200 D=LEN={N} unwind=20 bound="every input of {N} bytes, every seed"
//@ job name=city128 cc="-Dmemcpy=vh_mc" for=N:0..1,4,7..9,15..17,24,32,100,128,143..144,160,177/0..300 D=LEN={N} unwind=24 bound="every input of {N} bytes, every 128-bit seed"
//@ job name=yorrike for=N:0..9,16..17,31..34,63..65/0..70 D=LEN={N} unwind=10 bound="memory and determinism, every input of {N} bytes"
/* Oracles: the published algorithms, written out below from their
 * specifications (SMHasher MurmurHash3 x86_32/x86_128/x64_128, FNV-1a,
 * SuperFastHash, fasthash, SipHash-2-4, xxHash, CityHash 1.0.3). */
#include "vh.h"
#include <string.h>
#include "utils/hashfunc.h"
#include "utils/siphash.h"
#define XXH_STATIC_LINKING_ONLY
#include "utils/xxhash.h"

#ifndef SLACK
#define CAP (LEN ? LEN : 1)
static uint8_t In[CAP];
#define IN  (In + CAP - LEN)            /* no byte beyond the input exists */
static void input(void) { for (int i = 0; i < LEN; i++) IN[i] = nd_u8(); }
#else
/* xxHash forms (and does not read) pointers up to 32 bytes outside its
 * input.  Here the input sits between unrelated bytes of every value: any
 * use of them changes the result and breaks the equality. */
#define CAP (LEN + 64)
static uint8_t In[CAP];
#define IN  (In + 16)
static void input(void) { for (int i = 0; i < CAP; i++) In[i] = nd_u8(); }
#endif

/* keep whole-word copies as word assignments: one term for the solver */
void *vh_mc(void *d, const void *s, size_t n)
{
    if (n == sizeof(XXH32_state_t)) *(XXH32_state_t *)d = *(const XXH32_state_t *)s;
    else if (n == sizeof(XXH64_state_t)) *(XXH64_state_t *)d = *(const XXH64_state_t *)s;
    else if (n == 8) *(uint64_t *)d = *(const uint64_t *)s;
    else if (n == 4) *(uint32_t *)d = *(const uint32_t *)s;
    else for (size_t i = 0; i < n; i++) ((uint8_t *)d)[i] = ((const uint8_t *)s)[i];
    return d;
}
static uint32_t g32(const uint8_t *p) { return *(const uint32_t *)p; }
static uint64_t g64(const uint8_t *p) { return *(const uint64_t *)p; }
static uint32_t rl32(uint32_t x, int r) { return (x << r) | (x >> (32 - r)); }
static uint64_t rl64(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }

/* The witness that the end is reached is asked for one input only: finding
 * any model of a chain of multiplications is far harder than the proof. */
static int pinned(uint64_t s) { for (int i = 0; i < CAP; i++) if (In[i] != (uint8_t)i) return 0; return s == 1; }
#define END(s) do { if (pinned(s)) REACH("end"); } while (0)

/* ---- MurmurHash3 ---- */
static uint32_t mm32_fmix(uint32_t h) { h ^= h >> 16; h *= 0x85ebca6b; h ^= h >> 13; h *= 0xc2b2ae35; h ^= h >> 16; return h; }
static uint64_t mm64_fmix(uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; k ^= k >> 33; return k; }

void h_murmur32(void)
{
    uint32_t seed = nd_u32(), h = seed, k; int i;
    input();
    const uint8_t *p = IN;
    for (i = 0; i + 4 <= LEN; i += 4) {
        k = g32(p + i); k *= 0xcc9e2d51; k = rl32(k, 15); k *= 0x1b873593;
        h ^= k; h = rl32(h, 13); h = h * 5 + 0xe6546b64;
    }
    k = 0;
    if ((LEN & 3) >= 3) k ^= p[i + 2] << 16;
    if ((LEN & 3) >= 2) k ^= p[i + 1] << 8;
    if ((LEN & 3) >= 1) { k ^= p[i]; k *= 0xcc9e2d51; k = rl32(k, 15); k *= 0x1b873593; h ^= k; }
    h ^= (uint32_t)LEN;
    CHECK(murmur3_hash_32(IN, LEN, seed) == mm32_fmix(h), "MurmurHash3 x86_32");
    END(seed);
}

void h_murmur128(void)
{
    static const uint32_t C[4] = { 0x239b961b, 0xab0e9789, 0x38b34ae5, 0xa1e38b93 };
    static const int R[4] = { 15, 16, 17, 18 }, S[4] = { 19, 17, 15, 13 };
    static const uint32_t A[4] = { 0x561ccd1b, 0x0bcaa747, 0x96cd1c35, 0x32ac3b17 };
    uint32_t seed = nd_u32(), h[4] = { seed, seed, seed, seed }; int i, j, b;
    input();
    const uint8_t *p = IN;
    for (i = 0; i + 16 <= LEN; i += 16)
        for (j = 0; j < 4; j++) {
            uint32_t k = g32(p + i + 4 * j);
            k *= C[j]; k = rl32(k, R[j]); k *= C[(j + 1) & 3]; h[j] ^= k;
            h[j] = rl32(h[j], S[j]); h[j] += h[(j + 1) & 3]; h[j] = h[j] * 5 + A[j];
        }
    int rem = LEN - i;
    for (j = 3; j >= 0; j--) {
        int n = rem - 4 * j; if (n > 4) n = 4;
        if (n <= 0) continue;
        uint32_t k = 0;
        for (b = n - 1; b >= 0; b--) k ^= (uint32_t)p[i + 4 * j + b] << (8 * b);
        k *= C[j]; k = rl32(k, R[j]); k *= C[(j + 1) & 3]; h[j] ^= k;
    }
    for (j = 0; j < 4; j++) h[j] ^= (uint32_t)LEN;
    h[0] += h[1]; h[0] += h[2]; h[0] += h[3]; h[1] += h[0]; h[2] += h[0]; h[3] += h[0];
    for (j = 0; j < 4; j++) h[j] = mm32_fmix(h[j]);
    h[0] += h[1]; h[0] += h[2]; h[0] += h[3]; h[1] += h[0]; h[2] += h[0]; h[3] += h[0];
    uint_128_t r = murmur3_hash_128(IN, LEN, seed);
    CHECK(r.v[0] == (((uint64_t)h[0] << 32) | h[1]), "MurmurHash3 x86_128, first two words");
    CHECK(r.v[1] == (((uint64_t)h[2] << 32) | h[3]), "MurmurHash3 x86_128, last two words");
    END(seed);
}

void h_murmur64(void)
{
    const uint64_t c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL;
    uint32_t seed = nd_u32(); uint64_t h1 = seed, h2 = seed, k1, k2; int i, b;
    input();
    const uint8_t *p = IN;
    for (i = 0; i + 16 <= LEN; i += 16) {
        k1 = g64(p + i); k2 = g64(p + i + 8);
        k1 *= c1; k1 = rl64(k1, 31); k1 *= c2; h1 ^= k1;
        h1 = rl64(h1, 27); h1 += h2; h1 = h1 * 5 + 0x52dce729;
        k2 *= c2; k2 = rl64(k2, 33); k2 *= c1; h2 ^= k2;
        h2 = rl64(h2, 31); h2 += h1; h2 = h2 * 5 + 0x38495ab5;
    }
    int rem = LEN - i;
    k1 = k2 = 0;
    for (b = rem - 1; b >= 8; b--) k2 ^= (uint64_t)p[i + b] << (8 * (b - 8));
    if (rem > 8) { k2 *= c2; k2 = rl64(k2, 33); k2 *= c1; h2 ^= k2; }
    for (b = (rem < 8 ? rem : 8) - 1; b >= 0; b--) k1 ^= (uint64_t)p[i + b] << (8 * b);
    if (rem > 0) { k1 *= c1; k1 = rl64(k1, 31); k1 *= c2; h1 ^= k1; }
    h1 ^= LEN; h2 ^= LEN;
    h1 += h2; h2 += h1;
    h1 = mm64_fmix(h1); h2 = mm64_fmix(h2);
    h1 += h2; h2 += h1;
    uint_128_t r = murmur3_hash64_128(IN, LEN, seed);
    CHECK(r.v[0] == h1 && r.v[1] == h2, "MurmurHash3 x64_128");
    END(seed);
}

/* ---- FNV-1a ---- */
void h_fnv(void)
{
    uint32_t h = 0x811c9dc5; uint64_t g = 0xcbf29ce484222325ULL;
    input();
    for (int i = 0; i < LEN; i++) { h = (h ^ IN[i]) * 0x01000193; g = (g ^ IN[i]) * 0x100000001b3ULL; }
    CHECK(fnv_hash(IN, LEN, nd_u32()) == h, "FNV-1a, 32 bits");
    CHECK(fnv_hash64(IN, LEN, nd_u64()) == g, "FNV-1a, 64 bits");
    END(1);
}

/* ---- SuperFastHash ---- */
void h_hsieh(void)
{
    uint32_t seed = nd_u32(), h = seed, t; int i;
    input();
    const uint8_t *p = IN;
#define G16(o) (((uint32_t)p[(o) + 1] << 8) + (uint32_t)p[o])
    for (i = 0; i + 4 <= LEN; i += 4) {
        h += G16(i); t = (G16(i + 2) << 11) ^ h; h = (h << 16) ^ t; h += h >> 11;
    }
    if ((LEN & 3) == 3) { h += G16(i); h ^= h << 16; h ^= (uint32_t)(int32_t)(int8_t)p[i + 2] << 18; h += h >> 11; }
    if ((LEN & 3) == 2) { h += G16(i); h ^= h << 11; h += h >> 17; }
    if ((LEN & 3) == 1) { h += (uint32_t)(int32_t)(int8_t)p[i]; h ^= h << 10; h += h >> 1; }
    h ^= h << 3; h += h >> 5; h ^= h << 4; h += h >> 17; h ^= h << 25; h += h >> 6;
    if (LEN == 0) h = 0;
    CHECK(hsieh_hash(IN, LEN, seed) == h, "SuperFastHash");
    END(seed);
}

/* ---- fasthash ---- */
static uint64_t fh_mix(uint64_t h) { h ^= h >> 23; h *= 0x2127599bf4325c37ULL; h ^= h >> 47; return h; }
static uint64_t fh(uint64_t seed)
{
    const uint64_t m = 0x880355f21e6d1965ULL; uint64_t h = seed ^ ((uint64_t)LEN * m), v = 0; int i, b;
    const uint8_t *p = IN;
    for (i = 0; i + 8 <= LEN; i += 8) { h ^= fh_mix(g64(p + i)); h *= m; }
    if (LEN & 7) {
        for (b = (LEN & 7) - 1; b >= 0; b--) v ^= (uint64_t)p[i + b] << (8 * b);
        h ^= fh_mix(v); h *= m;
    }
    return fh_mix(h);
}
void h_fast(void)
{
    uint64_t seed = nd_u64(); uint32_t s32 = nd_u32();
    input();
    CHECK(fasthash64(IN, LEN, seed) == fh(seed), "fasthash64");
    uint64_t h = fh(s32);
    CHECK(fasthash32(IN, LEN, s32) == (uint32_t)(h - (h >> 32)), "fasthash32");
    END(seed);
}

/* ---- SipHash-2-4 ---- */
static uint64_t V[4];
static void sipround(void)
{
    V[0] += V[1]; V[1] = rl64(V[1], 13); V[1] ^= V[0]; V[0] = rl64(V[0], 32);
    V[2] += V[3]; V[3] = rl64(V[3], 16); V[3] ^= V[2];
    V[0] += V[3]; V[3] = rl64(V[3], 21); V[3] ^= V[0];
    V[2] += V[1]; V[1] = rl64(V[1], 17); V[1] ^= V[2]; V[2] = rl64(V[2], 32);
}
void h_sip(void)
{
    uint64_t key[2], m; int i, b;
    key[0] = nd_u64(); key[1] = nd_u64();
    input();
    const uint8_t *p = IN;
    V[0] = key[0] ^ 0x736f6d6570736575ULL; V[1] = key[1] ^ 0x646f72616e646f6dULL;
    V[2] = key[0] ^ 0x6c7967656e657261ULL; V[3] = key[1] ^ 0x7465646279746573ULL;
    for (i = 0; i + 8 <= LEN; i += 8) { m = g64(p + i); V[3] ^= m; sipround(); sipround(); V[0] ^= m; }
    m = (uint64_t)(LEN & 255) << 56;
    for (b = 0; b < (LEN & 7); b++) m |= (uint64_t)p[i + b] << (8 * b);
    V[3] ^= m; sipround(); sipround(); V[0] ^= m;
    V[2] ^= 0xff; sipround(); sipround(); sipround(); sipround();
    uint64_t want = V[0] ^ V[1] ^ V[2] ^ V[3];
    CHECK(siphash24(IN, LEN, key) == want, "SipHash-2-4");
    siphash24_state st;
    siphash24_init(&st, key); siphash24_update(&st, IN, LEN);
    CHECK(siphash24_finish(&st) == want, "the streaming interface given the whole input agrees");
    END(1);
}

/* ---- xxHash ---- */
static const uint32_t P1 = 0x9E3779B1, P2 = 0x85EBCA77, P3 = 0xC2B2AE3D, P4 = 0x27D4EB2F, P5 = 0x165667B1;
static const uint64_t Q1 = 0x9E3779B185EBCA87ULL, Q2 = 0xC2B2AE3D27D4EB4FULL, Q3 = 0x165667B19E3779F9ULL, Q4 = 0x85EBCA77C2B2AE63ULL, Q5 = 0x27D4EB2F165667C5ULL;
static uint32_t r32(uint32_t a, uint32_t l) { a += l * P2; a = rl32(a, 13); a *= P1; return a; }
static uint64_t r64(uint64_t a, uint64_t l) { a += l * Q2; a = rl64(a, 31); a *= Q1; return a; }
static uint64_t m64(uint64_t a, uint64_t v) { a ^= r64(0, v); return a * Q1 + Q4; }
static uint32_t rxx32(uint32_t seed)
{
    const uint8_t *p = IN; int i = 0; uint32_t h;
    if (LEN >= 16) {
        uint32_t a = seed + P1 + P2, b = seed + P2, c = seed, d = seed - P1;
        for (; i + 16 <= LEN; i += 16) { a = r32(a, g32(p + i)); b = r32(b, g32(p + i + 4)); c = r32(c, g32(p + i + 8)); d = r32(d, g32(p + i + 12)); }
        h = rl32(a, 1) + rl32(b, 7) + rl32(c, 12) + rl32(d, 18);
    } else h = seed + P5;
    h += LEN;
    for (; i + 4 <= LEN; i += 4) { h += g32(p + i) * P3; h = rl32(h, 17) * P4; }
    for (; i < LEN; i++) { h += p[i] * P5; h = rl32(h, 11) * P1; }
    h ^= h >> 15; h *= P2; h ^= h >> 13; h *= P3; h ^= h >> 16;
    return h;
}
static uint64_t rxx64(uint64_t seed)
{
    const uint8_t *p = IN; int i = 0; uint64_t h;
    if (LEN >= 32) {
        uint64_t a = seed + Q1 + Q2, b = seed + Q2, c = seed, d = seed - Q1;
        for (; i + 32 <= LEN; i += 32) { a = r64(a, g64(p + i)); b = r64(b, g64(p + i + 8)); c = r64(c, g64(p + i + 16)); d = r64(d, g64(p + i + 24)); }
        h = rl64(a, 1) + rl64(b, 7) + rl64(c, 12) + rl64(d, 18);
        h = m64(h, a); h = m64(h, b); h = m64(h, c); h = m64(h, d);
    } else h = seed + Q5;
    h += LEN;
    for (; i + 8 <= LEN; i += 8) { h ^= r64(0, g64(p + i)); h = rl64(h, 27) * Q1 + Q4; }
    if (i + 4 <= LEN) { h ^= (uint64_t)g32(p + i) * Q1; h = rl64(h, 23) * Q2 + Q3; i += 4; }
    for (; i < LEN; i++) { h ^= p[i] * Q5; h = rl64(h, 11) * Q1; }
    h ^= h >> 33; h *= Q2; h ^= h >> 29; h *= Q3; h ^= h >> 32;
    return h;
}
void h_xx32(void) { uint32_t s = nd_u32(); input(); CHECK(XXH32(IN, LEN, s) == rxx32(s), "XXH32"); END(s); }
void h_xx64(void) { uint64_t s = nd_u64(); input(); CHECK(XXH64(IN, LEN, s) == rxx64(s), "XXH64"); END(s); }

#ifdef K
#ifndef L
#define L LEN
#endif
void h_stream32(void)
{
    uint32_t s = nd_u32(), want; XXH32_state_t st;
    input();
    want = rxx32(s);
    CHECK(XXH32_reset(&st, s) == XXH_OK, "reset");
    CHECK(XXH32_update(&st, IN, K) == XXH_OK && XXH32_update(&st, IN + K, LEN - K) == XXH_OK, "update");
    CHECK(XXH32_digest(&st) == want, "XXH32 in two pieces is XXH32 of the whole");
    END(s);
}
void h_stream64(void)
{
    uint64_t s = nd_u64(), want; XXH64_state_t st;
    input();
    want = rxx64(s);
    CHECK(XXH64_reset(&st, s) == XXH_OK, "reset");
    CHECK(XXH64_update(&st, IN, K) == XXH_OK && XXH64_update(&st, IN + K, LEN - K) == XXH_OK, "update");
    CHECK(XXH64_digest(&st) == want, "XXH64 in two pieces is XXH64 of the whole");
    END(s);
}
void h_split3(void)
{
    uint64_t s = nd_u64(); XXH64_state_t st; XXH32_state_t su;
    input();
    uint64_t w64 = rxx64(s); uint32_t w32 = rxx32((uint32_t)s);
    XXH64_reset(&st, s); XXH32_reset(&su, (uint32_t)s);
    XXH64_update(&st, IN, K); XXH64_update(&st, IN + K, L - K); XXH64_digest(&st); XXH64_update(&st, IN + L, LEN - L);
    XXH32_update(&su, IN, K); XXH32_update(&su, IN + K, L - K); XXH32_digest(&su); XXH32_update(&su, IN + L, LEN - L);
    CHECK(XXH64_digest(&st) == w64, "XXH64 in three pieces, with a digest between, is XXH64 of the whole");
    CHECK(XXH32_digest(&su) == w32, "XXH32 in three pieces, with a digest between, is XXH32 of the whole");
    END(s);
}
#endif
void h_canon(void)
{
    uint32_t a = nd_u32(); uint64_t b = nd_u64();
    XXH32_canonical_t c; XXH64_canonical_t d;
    XXH32_canonicalFromHash(&c, a); XXH64_canonicalFromHash(&d, b);
    for (int i = 0; i < 4; i++) CHECK(c.digest[i] == (uint8_t)(a >> (24 - 8 * i)), "canonical form is big endian");
    for (int i = 0; i < 8; i++) CHECK(d.digest[i] == (uint8_t)(b >> (56 - 8 * i)), "canonical form is big endian");
    CHECK(XXH32_hashFromCanonical(&c) == a && XXH64_hashFromCanonical(&d) == b, "and reads back");
    END(1);
}

/* ---- CityHash 1.0.3 ---- */
#define K0 0xc3a5c85c97cb3127ULL
#define K1 0xb492b66fbe98f273ULL
#define K2 0x9ae16a3b2f90404fULL
#define K3 0xc949d7c7509e6557ULL
typedef struct { uint64_t a, b; } pr;
static uint64_t rr(uint64_t v, int s) { return s == 0 ? v : ((v >> s) | (v << (64 - s))); }
static uint64_t smix(uint64_t v) { return v ^ (v >> 47); }
static uint64_t h16(uint64_t u, uint64_t v)
{
    const uint64_t M = 0x9ddfea08eb382d69ULL;
    uint64_t a = (u ^ v) * M; a ^= a >> 47;
    uint64_t b = (v ^ a) * M; b ^= b >> 47;
    return b * M;
}
static uint64_t c0to16(const uint8_t *s, size_t n)
{
    if (n > 8) { uint64_t a = g64(s), b = g64(s + n - 8); return h16(a, rr(b + n, n)) ^ b; }
    if (n >= 4) { uint64_t a = g32(s); return h16(n + (a << 3), g32(s + n - 4)); }
    if (n > 0) {
        uint8_t a = s[0], b = s[n >> 1], c = s[n - 1];
        uint32_t y = (uint32_t)a + ((uint32_t)b << 8), z = n + ((uint32_t)c << 2);
        return smix(y * K2 ^ z * K3) * K2;
    }
    return K2;
}
static pr weak(const uint8_t *s, uint64_t a, uint64_t b)
{
    uint64_t w = g64(s), x = g64(s + 8), y = g64(s + 16), z = g64(s + 24), c;
    a += w; b = rr(b + a + z, 21); c = a; a += x; a += y; b += rr(a, 44);
    return (pr){ a + z, b + c };
}
struct cst { uint64_t x, y, z; pr v, w; };
static void cstep(struct cst *q, const uint8_t *s)
{
    uint64_t t;
    q->x = rr(q->x + q->y + q->v.a + g64(s + 8), 37) * K1;
    q->y = rr(q->y + q->v.b + g64(s + 48), 42) * K1;
    q->x ^= q->w.b;
    q->y += q->v.a + g64(s + 40);
    q->z = rr(q->z + q->w.a, 33) * K1;
    q->v = weak(s, q->v.b * K1, q->x + q->w.a);
    q->w = weak(s + 32, q->z + q->w.b, q->y + g64(s + 16));
    t = q->z; q->z = q->x; q->x = t;
}
static uint64_t city64(const uint8_t *s, size_t n)
{
    if (n <= 16) return c0to16(s, n);
    if (n <= 32) {
        uint64_t a = g64(s) * K1, b = g64(s + 8), c = g64(s + n - 8) * K2, d = g64(s + n - 16) * K0;
        return h16(rr(a - b, 43) + rr(c, 30) + d, a + rr(b ^ K3, 20) - c + n);
    }
    if (n <= 64) {
        uint64_t z = g64(s + 24), a = g64(s) + (n + g64(s + n - 16)) * K0, b = rr(a + z, 52), c = rr(a, 37);
        a += g64(s + 8); c += rr(a, 7); a += g64(s + 16);
        uint64_t vf = a + z, vs = b + rr(a, 31) + c;
        a = g64(s + 16) + g64(s + n - 32); z = g64(s + n - 8);
        b = rr(a + z, 52); c = rr(a, 37);
        a += g64(s + n - 24); c += rr(a, 7); a += g64(s + n - 16);
        uint64_t wf = a + z, ws = b + rr(a, 31) + c;
        uint64_t r = smix((vf + ws) * K2 + (wf + vs) * K0);
        return smix(r * K0 + vs) * K2;
    }
    struct cst q;
    q.x = g64(s + n - 40);
    q.y = g64(s + n - 16) + g64(s + n - 56);
    q.z = h16(g64(s + n - 48) + n, g64(s + n - 24));
    q.v = weak(s + n - 64, n, q.z);
    q.w = weak(s + n - 32, q.y + K1, q.x);
    q.x = q.x * K1 + g64(s);
    for (size_t m = (n - 1) & ~(size_t)63, o = 0; o < m; o += 64) cstep(&q, s + o);
    return h16(h16(q.v.a, q.w.a) + smix(q.y) * K1 + q.z, h16(q.v.b, q.w.b) + q.x);
}
static pr city128s(const uint8_t *s, size_t n, pr seed)
{
    if (n < 128) {
        uint64_t a = seed.a, b = seed.b, c, d;
        if (n <= 16) {
            a = smix(a * K1) * K1;
            c = b * K1 + c0to16(s, n);
            d = smix(a + (n >= 8 ? g64(s) : c));
        } else {
            c = h16(g64(s + n - 8) + K1, a);
            d = h16(b + n, c + g64(s + n - 16));
            a += d;
            for (long l = (long)n - 16; l > 0; l -= 16, s += 16) {
                a ^= smix(g64(s) * K1) * K1; a *= K1; b ^= a;
                c ^= smix(g64(s + 8) * K1) * K1; c *= K1; d ^= c;
            }
        }
        a = h16(a, c); b = h16(d, b);
        return (pr){ a ^ b, h16(b, a) };
    }
    struct cst q;
    q.x = seed.a; q.y = seed.b; q.z = n * K1;
    q.v.a = rr(q.y ^ K1, 49) * K1 + g64(s);
    q.v.b = rr(q.v.a, 42) * K1 + g64(s + 8);
    q.w.a = rr(q.y + q.z, 35) * K1 + q.x;
    q.w.b = rr(q.x + g64(s + 88), 53) * K1;
    for (; n >= 128; n -= 128, s += 128) { cstep(&q, s); cstep(&q, s + 64); }
    q.x += rr(q.v.a + q.z, 49) * K0;
    q.z += rr(q.w.a, 37) * K0;
    for (size_t t = 0; t < n; ) {
        t += 32;
        q.y = rr(q.x + q.y, 42) * K0 + q.v.b;
        q.w.a += g64(s + n - t + 16);
        q.x = q.x * K0 + q.w.a;
        q.z += q.w.b + g64(s + n - t);
        q.w.b += q.v.a;
        q.v = weak(s + n - t, q.v.a + q.z, q.v.b);
    }
    q.x = h16(q.x, q.v.a);
    q.y = h16(q.y + q.z, q.w.a);
    return (pr){ h16(q.x + q.v.b, q.w.b) + q.y, h16(q.x + q.w.b, q.y + q.v.b) };
}
static pr city128(const uint8_t *s, size_t n)
{
    if (n >= 16) return city128s(s + 16, n - 16, (pr){ g64(s) ^ K3, g64(s + 8) });
    if (n >= 8)  return city128s(s, 0, (pr){ g64(s) ^ (n * K0), g64(s + n - 8) ^ K1 });
    return city128s(s, n, (pr){ K0, K1 });
}
void h_city(void)
{
    uint64_t seed = nd_u64(), h;
    input();
    h = city64(IN, LEN);
    CHECK(city_hash(IN, LEN, 0) == h, "CityHash64");
    ASSUME(seed != 0);
    CHECK(city_hash(IN, LEN, seed) == h16(h - K2, seed), "CityHash64WithSeed");
    END(seed);
}
void h_city128(void)
{
    uint_128_t seed = { { 0, 0 } }, r; pr w;
    input();
    r = city_hash_128(IN, LEN, seed);
    w = city128(IN, LEN);
    CHECK(r.v[0] == w.a && r.v[1] == w.b, "CityHash128");
    seed.v[0] = nd_u64(); seed.v[1] = nd_u64();
    ASSUME(seed.v[0] || seed.v[1]);
    r = city_hash_128(IN, LEN, seed);
    w = city128s(IN, LEN, (pr){ seed.v[0], seed.v[1] });
    CHECK(r.v[0] == w.a && r.v[1] == w.b, "CityHash128WithSeed");
    END(seed.v[0] + seed.v[1]);
}

/* ---- yorrike: no published reference for this variant ---- */
void h_yorrike(void)
{
    uint32_t seed = nd_u32(); uint8_t copy[CAP];
    input();
    for (int i = 0; i < CAP; i++) copy[i] = In[i];
    CHECK(yorrike_hash32(IN, LEN, seed) == yorrike_hash32(copy + CAP - LEN, LEN, seed), "equal bytes hash equally wherever they lie");
    for (int i = 0; i < CAP; i++) CHECK(In[i] == copy[i], "the input is not modified");
    END(1);
}
