//@ prop C43
//@ srcs src/prng/xorshift.c src/prng/xoroshiro.c src/prng/romu-rand.c
//@ default solver=z3 unwind=20
//@ job name=splitmix bound="every 64-bit state"
//@ job name=xs64 bound="every 64-bit state"
//@ job name=xs128 bound="every 128-bit state, two consecutive draws"
//@ job name=xs1024 for=N:0..15 D=IX={N} bound="every 1024-bit state, index {N}, two consecutive draws"
//@ job name=xoro bound="every 128-bit state, two consecutive draws"
//@ job name=romu4 bound="every 256-bit state, two consecutive draws"
//@ job name=romu3 bound="every 192-bit state, two consecutive draws"
//@ job name=romu2 bound="every 128-bit state, two consecutive draws"
//@ job name=seed64 bound="every seed, every entropy value"
//@ job name=seed1024 solver=cadical bound="every seed, every entropy value: index stays in range over 3 draws"
//@ job name=seedromu bound="every pair of seeds, every entropy value"
//@ job name=seedxoro bound="every seed, every entropy value"
/* Oracles: the published reference implementations (Vigna: splitmix64,
 * xorshift64*, xorshift128+ (23,18,5), xorshift1024* (31,11,30),
 * xoroshiro128+ (55,14,36); Overton: RomuQuad, RomuTrio, RomuDuo). */
#include "vh.h"
#include "utils/utils.h"
#include "utils/xorshift-rand.h"
#include "utils/xoroshiro.h"
#include "utils/romu-rand.h"
#include "utils/splitmix.h"

static uint64_t Ent[4]; static unsigned Nent;
int getentropy(void *p, size_t n)
{
    CHECK(n == 8 && Nent < 4, "a seed draws one 64-bit word");
    *(uint64_t *)p = Ent[Nent++];
    return 0;
}

static uint64_t rl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

/* ---- reference implementations ---- */
static uint64_t r_splitmix(uint64_t *x)
{
    uint64_t z = (*x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static uint64_t r_xs64(uint64_t *s)
{
    uint64_t x = *s;
    x ^= x >> 12; x ^= x << 25; x ^= x >> 27;
    *s = x;
    return x * 0x2545F4914F6CDD1DULL;
}
static uint64_t r_xs128(uint64_t s[2])
{
    uint64_t s1 = s[0]; const uint64_t s0 = s[1];
    s[0] = s0;
    s1 ^= s1 << 23;
    s[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return s[1] + s0;
}
static uint64_t r_xoro(uint64_t s[2])
{
    const uint64_t s0 = s[0]; uint64_t s1 = s[1];
    const uint64_t result = s0 + s1;
    s1 ^= s0;
    s[0] = rl(s0, 55) ^ s1 ^ (s1 << 14);
    s[1] = rl(s1, 36);
    return result;
}

void h_splitmix(void)
{
    uint64_t a = nd_u64(), b = a;
    CHECK(splitmix64(&a) == r_splitmix(&b), "splitmix64 returns the published value");
    CHECK(a == b, "and moves to the published state");
    REACH("end");
}
void h_xs64(void)
{
    xs64star s; uint64_t b = s.v = nd_u64();
    CHECK(xs64star_u64(&s) == r_xs64(&b), "xorshift64* returns the published value");
    CHECK(s.v == b, "and moves to the published state");
    REACH("end");
}
void h_xs128(void)
{
    xs128plus s; uint64_t b[2];
    b[0] = s.v[0] = nd_u64(); b[1] = s.v[1] = nd_u64();
    for (int i = 0; i < 2; i++) {
        CHECK(xs128plus_u64(&s) == r_xs128(b), "xorshift128+ returns the published value");
        CHECK(s.v[0] == b[0] && s.v[1] == b[1], "and moves to the published state");
    }
    REACH("end");
}
#ifdef IX
void h_xs1024(void)
{
    xs1024star s; uint64_t b[16]; unsigned p = IX;
    for (int i = 0; i < 16; i++) b[i] = s.v[i] = nd_u64();
    s.p = IX;
    for (int k = 0; k < 2; k++) {
        uint64_t s0 = b[p], s1 = b[p = (p + 1) & 15];
        s1 ^= s1 << 31;
        b[p] = s1 ^ s0 ^ (s1 >> 11) ^ (s0 >> 30);
        CHECK(xs1024star_u64(&s) == b[p] * 1181783497276652981ULL, "xorshift1024* returns the published value");
        CHECK(s.p == p, "the index steps round the sixteen words");
        for (int i = 0; i < 16; i++) CHECK(s.v[i] == b[i], "exactly one word of the state changes");
    }
    REACH("end");
}
#endif
void h_xoro(void)
{
    xoro128plus s; uint64_t b[2];
    b[0] = s.v0 = nd_u64(); b[1] = s.v1 = nd_u64();
    for (int i = 0; i < 2; i++) {
        CHECK(xoro128plus_u64(&s) == r_xoro(b), "xoroshiro128+ returns the published value");
        CHECK(s.v0 == b[0] && s.v1 == b[1], "and moves to the published state");
    }
    REACH("end");
}
void h_romu4(void)
{
    romu r; uint64_t w, x, y, z;
    w = r.w = nd_u64(); x = r.x = nd_u64(); y = r.y = nd_u64(); z = r.z = nd_u64();
    for (int i = 0; i < 2; i++) {
        uint64_t wp = w, xp = x, yp = y, zp = z;
        w = 15241094284759029579ULL * zp;
        x = zp + rl(wp, 52);
        y = yp - xp;
        z = yp + wp;
        z = rl(z, 19);
        CHECK(romu_quad(&r) == xp, "RomuQuad returns the published value");
        CHECK(r.w == w && r.x == x && r.y == y && r.z == z, "and moves to the published state");
    }
    REACH("end");
}
void h_romu3(void)
{
    romu r; uint64_t x, y, z;
    x = r.x = nd_u64(); y = r.y = nd_u64(); z = r.z = nd_u64(); r.w = 0;
    for (int i = 0; i < 2; i++) {
        uint64_t xp = x, yp = y, zp = z;
        x = 15241094284759029579ULL * zp;
        y = yp - xp; y = rl(y, 12);
        z = zp - yp; z = rl(z, 44);
        CHECK(romu_trio(&r) == xp, "RomuTrio returns the published value");
        CHECK(r.x == x && r.y == y && r.z == z, "and moves to the published state");
    }
    REACH("end");
}
void h_romu2(void)
{
    romu r; uint64_t x, y;
    x = r.x = nd_u64(); y = r.y = nd_u64(); r.z = r.w = 0;
    for (int i = 0; i < 2; i++) {
        uint64_t xp = x;
        x = 15241094284759029579ULL * y;
        y = rl(y, 36) + rl(y, 15) - xp;
        CHECK(romu_duo(&r) == xp, "RomuDuo returns the published value");
        CHECK(r.x == x && r.y == y, "and moves to the published state");
    }
    REACH("end");
}

/* ---- seeding ---- */
static void entropy(void) { Nent = 0; for (int i = 0; i < 4; i++) Ent[i] = nd_u64(); }

void h_seed64(void)
{
    xs64star a; xs128plus b;
    entropy();
    uint64_t seed = nd_u64(), s = seed, v;
    xs64star_init(&a, seed);
    if (seed) { v = r_splitmix(&s); CHECK(a.v == v, "a given seed is spread with splitmix64"); CHECK(Nent == 0, "and takes no entropy"); }
    else      { v = Ent[0]; CHECK(a.v == v, "no seed takes the system's entropy"); CHECK(Nent == 1, "exactly one word"); }
    Nent = 0;
    xs128plus_init(&b, seed);
    uint64_t x = r_xs64(&v), y = r_xs64(&v);
    CHECK(b.v[0] == x && b.v[1] == y, "the 128-bit state is two draws of the seeded 64-bit generator");
    REACH("end");
}
void h_seed1024(void)
{
    xs1024star s;
    entropy();
    xs1024star_init(&s, nd_u64());
    CHECK(s.p < 16, "the index starts in range");
    for (int i = 0; i < 3; i++) { xs1024star_u64(&s); CHECK(s.p < 16, "the index stays in range"); }
    REACH("end");
}
void h_seedromu(void)
{
    romu r; uint64_t a = nd_u64(), b = nd_u64();
    entropy();
    romu_quad_init(&r, a, b);
    uint64_t ea = a ? a : Ent[0], eb = b ? b : Ent[a ? 0 : 1];
    CHECK(r.w == ea && r.x == eb && r.y == ~ea && r.z == ~eb, "RomuQuad state from its seeds");
    CHECK(ea || eb || r.y, "never the all-zero state");
    Nent = 0;
    romu_trio_init(&r, a, b);
    CHECK(r.x == ea && r.y == eb && r.z == ~ea, "RomuTrio state from its seeds");
    Nent = 0;
    romu_duo_init(&r, a);
    CHECK(r.x == ea && r.y == ~ea, "RomuDuo state from its seed");
    REACH("end");
}
void h_seedxoro(void)
{
    xoro128plus s; uint64_t seed = nd_u64();
    entropy();
    xoro128plus_init(&s, seed);
    uint64_t e = seed ? seed : Ent[0], x = e;
    CHECK(s.v0 == e && s.v1 == r_splitmix(&x), "the state is the seed and its splitmix64 successor");
    CHECK(s.v0 || s.v1, "never the all-zero state");
    REACH("end");
}
