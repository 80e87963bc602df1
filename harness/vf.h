/* Verification run-time shared by every harness.
 *
 * Two builds of one harness source:
 *   - under CBMC (__CPROVER__) every sym_*() is an unconstrained symbolic
 *     value, recorded in the trace with __CPROVER_input;
 *   - natively the same calls pop the values of a replay file in order, so a
 *     counterexample is re-executed against the real, ASan/UBSan-built code.
 *
 * CHECK() is the property, ASSUME() a stated precondition/bound.
 */
#ifndef VF_H
#define VF_H 1

#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

#ifndef VF_TWIN
#define VF_TWIN 0
#endif

#ifdef VF_CBMC

uint64_t nondet_u64(void);
uint32_t nondet_u32(void);
uint16_t nondet_u16(void);
uint8_t nondet_u8(void);

static inline uint64_t sym_u64(void) { uint64_t vf_in = nondet_u64(); __CPROVER_input("vf", vf_in); return vf_in; }
static inline uint32_t sym_u32(void) { uint32_t vf_in = nondet_u32(); __CPROVER_input("vf", vf_in); return vf_in; }
static inline uint16_t sym_u16(void) { uint16_t vf_in = nondet_u16(); __CPROVER_input("vf", vf_in); return vf_in; }
static inline uint8_t  sym_u8(void)  { uint8_t  vf_in = nondet_u8();  __CPROVER_input("vf", vf_in); return vf_in; }

#define ASSUME(c) __CPROVER_assume(c)
#if VF_TWIN
/* vacuity twin: the property assertions become no-ops, END() must be reachable */
#define CHECK(c, msg) ((void)0)
#define END(id) __CPROVER_assert(0, "vf-twin " #id)
#else
#define CHECK(c, msg) __CPROVER_assert((c), "vf-check " msg)
#define END(id) ((void)0)
#endif

#else /* native replay */

uint64_t vf_next(void);
void vf_check_failed(const char* msg, const char* file, int line);
void vf_assume_failed(const char* file, int line);
void vf_end(void);

static inline uint64_t sym_u64(void) { return vf_next(); }
static inline uint32_t sym_u32(void) { return (uint32_t)vf_next(); }
static inline uint16_t sym_u16(void) { return (uint16_t)vf_next(); }
static inline uint8_t  sym_u8(void)  { return (uint8_t)vf_next(); }

#define ASSUME(c) do { if (!(c)) vf_assume_failed(__FILE__, __LINE__); } while (0)
#define CHECK(c, msg) do { if (!(c)) vf_check_failed(msg, __FILE__, __LINE__); } while (0)
#define END(id) vf_end()

#endif

/* ends a case: the path needs no merging with the other cases */
#ifdef VF_CBMC
#define STOP() __CPROVER_assume(0)
#define STOPV() __CPROVER_assume(0)
#else
#define STOP() return 0
#define STOPV() return
#endif

static inline bool sym_bool(void) { return (sym_u8() & 1) != 0; }

/* value in [lo, hi] */
static inline size_t sym_range(size_t lo, size_t hi) {
    size_t v = (size_t)sym_u32();
    ASSUME(v >= lo && v <= hi);
    return v;
}

#endif
