//@ prop C50
//@ srcs
//@ default cc="-DOPTIMIZER_HIDE_VAR(x)=((void)(x))"
//@ job name=align bound="every 64-, 32- and 16-bit value, every power of two that the result fits" unwind=2
//@ job name=pow2 bound="every non-zero 64-bit value for the test; every value whose rounding fits for the rounding" unwind=66
//@ job name=nospec bound="every 64-bit index, every size up to 2^63" unwind=2
//@ job name=time bound="every number of units below 1024" unwind=2
//@ job name=clock solver=z3 cc="-Dgettimeofday=vh_gtod -Dclock_gettime=vh_cgt" bound="every clock reading below 2^33 seconds" unwind=2
#include "vh.h"
#include <sys/time.h>
#include <time.h>
static int vh_gtod(struct timeval *tv, void *z); static int vh_cgt(clockid_t c, struct timespec *ts);
#include "utils/utils.h"
#include "utils/typeutils.h"
#include "utils/nospec.h"
#include "fast/tmutils.h"
static struct timeval TV; static struct timespec TS;
static int vh_gtod(struct timeval *tv, void *z) { (void)z; *tv = TV; return 0; }
static int vh_cgt(clockid_t c, struct timespec *ts) { CHECK(c == CLOCK_MONOTONIC, "the monotonic clock is read"); *ts = TS; return 0; }

#define AL(T, v, n) do { \
    T up = _ALIGN_UP(v, n), dn = _ALIGN_DOWN(v, n); \
    CHECK((up & ((n) - 1)) == 0 && up >= (v) && up - (v) < (n), "rounding up gives the next multiple"); \
    CHECK((dn & ((n) - 1)) == 0 && dn <= (v) && (v) - dn < (n), "rounding down gives the previous multiple"); \
    CHECK(!!_IS_ALIGNED(v, n) == (((v) & ((n) - 1)) == 0), "the alignment test is exact"); } while (0)
void h_align(void)
{
    unsigned s = nd_small(0, 62);
    uint64_t v = nd_u64(), n = (uint64_t)1 << s;
    ASSUME(v <= UINT64_MAX - (n - 1));
    AL(uint64_t, v, n);
    if (s < 31) { uint32_t w = nd_u32(), m = (uint32_t)n; ASSUME(w <= UINT32_MAX - (m - 1)); AL(uint32_t, w, m); REACH("32"); }
    if (s < 15) { uint16_t w = nd_u16(); uint32_t m = (uint32_t)n; ASSUME(w <= UINT16_MAX - (m - 1)); AL(uint16_t, w, m); REACH("16"); }
    if (s < 20) { uint64_t w = nd_u32(); uint8_t *p = (uint8_t *)(uintptr_t)w; CHECK((uintptr_t)_ALIGN_UP(p, n) == ((w + n - 1) & ~(n - 1)), "pointers are rounded like numbers"); REACH("ptr"); }
    CHECK(ARRAY_SIZE(((uint64_t[]){1, 2, 3})) == 3, "the array size is the number of elements");
    REACH("align");
}
void h_pow2(void)
{
    uint64_t v = nd_u64(), n = 0; ASSUME(v);
    for (int i = 0; i < 64; i++) n += v >> i & 1;
    CHECK(!!_IS_POW2(v) == (n == 1), "the power-of-two test is exact");
    if (v <= (uint64_t)1 << 63) {
        uint64_t p = NEXTPOW2(v);
        CHECK(p && (p & (p - 1)) == 0 && p >= v && p / 2 < v, "rounding gives the next power of two");
        REACH("64");
    }
    uint32_t w = nd_u32(); ASSUME(w && w <= 0x80000000u);
    uint32_t q = NEXTPOW2(w);
    CHECK(q && (q & (q - 1)) == 0 && q >= w && q / 2 < w, "rounding gives the next power of two");
    uint8_t b = nd_u8(); ASSUME(b && b <= 0x80);
    uint8_t c = NEXTPOW2(b);
    CHECK(c && (c & (c - 1)) == 0 && c >= b && c / 2 < b, "rounding gives the next power of two");
    REACH("32");
}
void h_nospec(void)
{
    uint64_t i = nd_u64(), s = nd_u64();
    ASSUME(s <= (uint64_t)1 << 63);
    CHECK(__array_index_mask_nospec(i, s) == (i < s ? ~(uint64_t)0 : 0), "the mask is all ones exactly inside the bound");
    CHECK(array_index_nospec(i, s) == (i < s ? i : 0), "an index outside the bound becomes 0");
    uint32_t j = nd_u32(), t = nd_u32();
    CHECK(array_index_nospec(j, t) == (j < t ? j : 0), "an index outside the bound becomes 0");
    REACH("nospec");
}
void h_time(void)
{
    uint64_t n = nd_u32(); ASSUME(n < 1024);
    CHECK(_Second(n) == n * 1000000000u, "a second is 10^9 units");
    CHECK(_Millisecond(n) == n * 1000000u && _Microsecond(n) == n * 1000u && _Nanosecond(n) == n, "sub-second units");
    CHECK(_Minute(n) == n * 60000000000u && _Hour(n) == n * 3600000000000u, "minutes and hours");
    CHECK(_SEC(n) == n * 1000000 && _MSEC(n) == n * 1000 && _USEC(n) == n, "microsecond units");
    REACH("time");
}
void h_clock(void)
{
    uint64_t s = nd_u64(), f = nd_u32(), m = nd_u32();
    ASSUME(s < (uint64_t)1 << 33 && f < 1000000000u && m < 1000000);
    TV.tv_sec = (time_t)s; TV.tv_usec = (suseconds_t)m; TS.tv_sec = (time_t)s; TS.tv_nsec = (long)f;
    CHECK(timenow() == s * 1000000000u + f, "the clock in nanoseconds");
    CHECK(timenow_us() == s * 1000000u + m && now() == s * 1000000u + m, "the clock in microseconds");
    REACH("clock");
}
