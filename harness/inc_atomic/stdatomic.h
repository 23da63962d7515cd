/* Stands in for the compiler's <stdatomic.h>: every atomic operation is a plain
 * one between two calls into the harness.  In the first the other threads may
 * do anything they are entitled to, and the harness sees the operation, its
 * memory order and the value to be stored.  The calls happen in the order the
 * code makes them, so a counterexample replays without threads. */
#ifndef VH_STDATOMIC_H
#define VH_STDATOMIC_H 1
#include <stdint.h>
typedef enum { memory_order_relaxed, memory_order_consume, memory_order_acquire, memory_order_release, memory_order_acq_rel, memory_order_seq_cst } memory_order;
typedef uint_fast32_t atomic_uint_fast32_t;
typedef uint_fast64_t atomic_uint_fast64_t;
typedef uint32_t atomic_uint; typedef int atomic_int; typedef uint64_t atomic_ulong; typedef uint64_t atomic_size_t; typedef _Bool atomic_bool;
typedef uint64_t atomic_uint_least64_t; typedef uint32_t atomic_uint_least32_t;
#define _Atomic(t) t
enum { VH_LOAD, VH_STORE, VH_CAS, VH_ADD };
void vh_before(volatile void *p, int op, int order, uint64_t v);    /* about to act */
void vh_after(volatile void *p, int op, int order, int done);       /* has acted (done: it wrote) */
#define VH_ACQ(o) ((o) == memory_order_acquire || (o) == memory_order_acq_rel || (o) == memory_order_seq_cst)
#define VH_REL(o) ((o) == memory_order_release || (o) == memory_order_acq_rel || (o) == memory_order_seq_cst)
#define ATOMIC_VAR_INIT(v) (v)
#define atomic_init(p, v) ((void)(*(p) = (v)))
#define atomic_load_explicit(p, o) ({ __auto_type p__ = (p); vh_before(p__, VH_LOAD, (o), 0); __auto_type v__ = *p__; vh_after(p__, VH_LOAD, (o), 0); v__; })
#define atomic_store_explicit(p, v, o) ({ __auto_type p__ = (p); __typeof__(*p__) v__ = (v); vh_before(p__, VH_STORE, (o), v__); *p__ = v__; vh_after(p__, VH_STORE, (o), 1); (void)0; })
#define atomic_compare_exchange_strong_explicit(p, e, d, o, f) ({ __auto_type p__ = (p); __auto_type e__ = (e); __typeof__(*p__) d__ = (d); \
    vh_before(p__, VH_CAS, (o), d__); int ok__ = *p__ == *e__; if (ok__) *p__ = d__; else *e__ = *p__; vh_after(p__, VH_CAS, (o), ok__); ok__; })
#define atomic_fetch_add_explicit(p, v, o) ({ __auto_type p__ = (p); vh_before(p__, VH_ADD, (o), (v)); __auto_type w__ = *p__; *p__ = w__ + (v); vh_after(p__, VH_ADD, (o), 1); w__; })
#define atomic_load(p) atomic_load_explicit(p, memory_order_seq_cst)
#define atomic_store(p, v) atomic_store_explicit(p, v, memory_order_seq_cst)
#define atomic_compare_exchange_strong(p, e, d) atomic_compare_exchange_strong_explicit(p, e, d, memory_order_seq_cst, memory_order_seq_cst)
#define atomic_compare_exchange_weak(p, e, d) atomic_compare_exchange_strong(p, e, d)
#define atomic_compare_exchange_weak_explicit(p, e, d, o, f) atomic_compare_exchange_strong_explicit(p, e, d, o, f)
#define atomic_fetch_add(p, v) atomic_fetch_add_explicit(p, v, memory_order_seq_cst)
#endif
