/* Common harness vocabulary.
 *
 * VH_CBMC   : compiled by goto-cc; nd_*() are solver variables.
 * otherwise : compiled by gcc for counterexample replay; nd_*() read the
 *             values the solver chose, in order, from the file $VH_INPUT.
 */
#ifndef VH_H
#define VH_H 1
#include <stddef.h>
#include <stdint.h>

#ifdef VH_CBMC

uint64_t nondet_vh_u64(void);
uint32_t nondet_vh_u32(void);
uint16_t nondet_vh_u16(void);
uint8_t  nondet_vh_u8(void);

static inline uint64_t nd_u64(void) { uint64_t v = nondet_vh_u64(); __CPROVER_input("nd", v); return v; }
static inline uint32_t nd_u32(void) { uint32_t v = nondet_vh_u32(); __CPROVER_input("nd", v); return v; }
static inline uint16_t nd_u16(void) { uint16_t v = nondet_vh_u16(); __CPROVER_input("nd", v); return v; }
static inline uint8_t  nd_u8(void)  { uint8_t  v = nondet_vh_u8();  __CPROVER_input("nd", v); return v; }

#define ASSUME(c)     __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), "PROP: " msg)
#define REACH(name)   __CPROVER_assert(0, "REACH: " name)

#else

extern uint64_t vh_next(void);
extern void     vh_assume_fail(void);
extern void     vh_check_fail(const char *msg, const char *file, int line);
extern void     vh_reach(const char *name);

static inline uint64_t nd_u64(void) { return vh_next(); }
static inline uint32_t nd_u32(void) { return (uint32_t)vh_next(); }
static inline uint16_t nd_u16(void) { return (uint16_t)vh_next(); }
static inline uint8_t  nd_u8(void)  { return (uint8_t)vh_next(); }

#define ASSUME(c)     do { if (!(c)) vh_assume_fail(); } while (0)
#define CHECK(c, msg) do { if (!(c)) vh_check_fail(msg, __FILE__, __LINE__); } while (0)
#define REACH(name)   vh_reach(name)

#endif

static inline int      nd_bool(void)  { return nd_u8() & 1; }
static inline int      nd_int(void)   { return (int)nd_u32(); }
static inline size_t   nd_size(void)  { return (size_t)nd_u64(); }

/* value in [lo, hi] */
static inline size_t nd_range(size_t lo, size_t hi)
{
    size_t v = nd_size();
    ASSUME(v >= lo && v <= hi);
    return v;
}
/* small value in [lo, hi], 8 bits wide (cheaper to encode) */
static inline unsigned nd_small(unsigned lo, unsigned hi)
{
    uint8_t v = nd_u8();
    ASSUME(v >= lo && v <= hi);
    return v;
}

/* byte comparison whose loop bound is a compile-time constant */
static inline int vh_eq(const void *a, const void *b, size_t n, size_t max)
{
    const uint8_t *x = a, *y = b; int d = 0;
    for (size_t i = 0; i < max; i++) if (i < n && x[i] != y[i]) d = 1;
    return !d;
}

/* Byte at which heap blocks are laid out in the replay build only */
#define VH_UNUSED(x) ((void)(x))

#endif
