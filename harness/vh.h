/* Verification harness support.
 *
 * A unit (harness/<unit>.c) includes the REAL source file(s) of /repo
 * (or the copy of it into which vc/annot.py injected loop contracts),
 * builds an arbitrary state satisfying the precondition of the function
 * under contract from nd_*() values, calls the function, and CHECKs the
 * postcondition.  The same file is compiled
 *   - by goto-cc for CBMC: nd_*() are unconstrained, ASSUME is the
 *     precondition, every CHECK is a proof obligation, and every REACH is an
 *     anti-vacuity obligation (it must be reachable);
 *   - by gcc with ASan/UBSan (-DVH_NATIVE): nd_*() are read from a
 *     counterexample file, or drawn at random, and a failed CHECK aborts.
 */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#ifdef VH_NATIVE
uint64_t vh_nd(unsigned bits);
void vh_assume_fail(void) __attribute__((noreturn));
void vh_check_fail(const char *what, const char *file, int line) __attribute__((noreturn));
void vh_reach(const char *what);
#define ASSUME(c) do { if (!(c)) vh_assume_fail(); } while (0)
#define CHECK(c, what) do { if (!(c)) vh_check_fail(what, __FILE__, __LINE__); } while (0)
#define REACH(what) vh_reach(what)
static inline uint8_t nd_u8(void) { return (uint8_t)vh_nd(8); }
static inline uint16_t nd_u16(void) { return (uint16_t)vh_nd(16); }
static inline uint32_t nd_u32(void) { return (uint32_t)vh_nd(32); }
static inline uint64_t nd_u64(void) { return vh_nd(64); }
static inline bool nd_bool(void) { return vh_nd(1) & 1; }
#define __CPROVER_loop_invariant(...)
#define __CPROVER_assigns(...)
#define __CPROVER_decreases(...)
#else
uint8_t nondet_vh_u8(void);
uint16_t nondet_vh_u16(void);
uint32_t nondet_vh_u32(void);
uint64_t nondet_vh_u64(void);
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, what) __CPROVER_assert((c), "POST: " what)
#define REACH(what) __CPROVER_assert(0, "REACH: " what)
static inline uint8_t nd_u8(void) { uint8_t v = nondet_vh_u8(); __CPROVER_input("nd", v); return v; }
static inline uint16_t nd_u16(void) { uint16_t v = nondet_vh_u16(); __CPROVER_input("nd", v); return v; }
static inline uint32_t nd_u32(void) { uint32_t v = nondet_vh_u32(); __CPROVER_input("nd", v); return v; }
static inline uint64_t nd_u64(void) { uint64_t v = nondet_vh_u64(); __CPROVER_input("nd", v); return v; }
static inline bool nd_bool(void) { uint8_t v = nondet_vh_u8(); __CPROVER_input("nd", v); return v & 1; }
#endif
static inline int nd_int(void) { return (int)nd_u32(); }
/* a value in [lo, hi] */
static inline uint32_t nd_range(uint32_t lo, uint32_t hi)
{
#ifdef VH_NATIVE
    uint32_t v = nd_u32();
    extern int vh_random;
    if (vh_random && (v < lo || v > hi)) v = lo + (hi - lo == 0xffffffffu ? v : v % (hi - lo + 1));
#else
    uint32_t v = nd_u32();
#endif
    ASSUME(v >= lo && v <= hi);
    return v;
}

void vh_main(void);        /* the unit */

#ifndef BOUND
#define BOUND 3
#endif
#endif
