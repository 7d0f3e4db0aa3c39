/* Common part of every contract unit.  The same text is read by goto-cc (where
 * the V_* macros are CBMC contract clauses) and by gcc for the native replay of
 * a counterexample (where they vanish and nondeterministic inputs are read back
 * from the counterexample). */
#ifndef VCOMMON_H
#ifndef V_CASE /* the part of a split harness, see check.py */
#define V_CASE 0
#endif
#define VCOMMON_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

#ifdef V_CBMC
#undef isfinite
#define isfinite(x) (!isnan(x) && !isinf(x)) /* the builtin has no model */
#define V_REQUIRES(...) __CPROVER_requires(__VA_ARGS__)
#define V_ENSURES(...)  __CPROVER_ensures(__VA_ARGS__)
#define V_ASSIGNS(...)  __CPROVER_assigns(vnd_u, vnd_d, __VA_ARGS__)
#define V_ASSIGNS_NOTHING __CPROVER_assigns(vnd_u, vnd_d)
#define V_RET           __CPROVER_return_value
#define V_OLD(x)        __CPROVER_old(x)
#define V_NCHECK(c)     do { } while (0)
#define v_assume(c)     __CPROVER_assume(c)
#define v_check(c, tag) __CPROVER_assert(c, tag)
/* vacuity guard: this assertion MUST be reported as failing by every run */
#define V_REACH(tag)    __CPROVER_assert(0, "V_REACH " tag)
/* an outcome that must be possible: reported as a violation if no execution
 * gets here (in the harness function itself) */
#define V_COVER(tag)    __CPROVER_assert(0, "V_COVER " tag)
#define v_isnan(x)      __CPROVER_isnand(x)
uint64_t        nondet_u64(void);
double          nondet_f64(void);
extern uint64_t vnd_u;
extern double   vnd_d;
uint64_t        vnd_u;
double          vnd_d;
static inline uint64_t
nd_u64(void)
{
	uint64_t x = nondet_u64();
	vnd_u      = x;
	return x;
}
static inline double
nd_f64(void)
{
	double x = nondet_f64();
	vnd_d    = x;
	return x;
}
#else
#include <stdio.h>
#define V_REQUIRES(...)
#define V_ENSURES(...)
#define V_ASSIGNS(...)
#define V_ASSIGNS_NOTHING
#define V_NCHECK(c)     v_check(c, "postcondition " #c)
#define v_assume(c)                                                            \
	do {                                                                   \
		if (!(c)) {                                                    \
			printf("REPLAY: assumption not met: %s\n", #c);        \
			exit(77);                                              \
		}                                                              \
	} while (0)
#define v_check(c, tag)                                                        \
	do {                                                                   \
		if (!(c)) {                                                    \
			printf("REPLAY: FAILED %s\n", tag);                    \
			exit(1);                                               \
		}                                                              \
	} while (0)
#define V_REACH(tag) do { } while (0)
#define V_COVER(tag) do { } while (0)
#define v_isnan(x) isnan(x)
static uint64_t vnd_vals[1 << 16];
static size_t   vnd_n, vnd_i;
static inline uint64_t
nd_u64(void)
{
	return vnd_i < vnd_n ? vnd_vals[vnd_i++] : 0;
}
static inline double
nd_f64(void)
{
	uint64_t u = nd_u64();
	double   d;
	memcpy(&d, &u, 8);
	return d;
}
#endif
static inline int64_t
nd_i64(void)
{
	return (int64_t)nd_u64();
}
static inline uint32_t
nd_u32(void)
{
	return (uint32_t)nd_u64();
}
static inline int32_t
nd_i32(void)
{
	return (int32_t)(uint32_t)nd_u64();
}
static inline int
nd_bool(void)
{
	return (int)(nd_u64() & 1);
}
/* a value of [0, n] */
static inline size_t
nd_upto(size_t n)
{
	size_t v = (size_t)nd_u64();
	v_assume(v <= n);
	return v;
}
/* both evaluated, no short circuit: keeps spec functions branch free */
#define IMPLIES(a, b) (!(a) || (b))
#define IFF(a, b)     (!(a) == !(b))

#ifdef V_CBMC
/* CBMC 6.11 loses the effect of memcpy, memmove and memset of a size it does not
 * know to be constant on arrays of anything but bytes: sizes in use are told
 * apart first, so that each call has a constant size. */
#define V_SIZES                                                                \
	V_SZ(0) V_SZ(4) V_SZ(8) V_SZ(12) V_SZ(16) V_SZ(20) V_SZ(24) V_SZ(32)   \
	V_SZ(40) V_SZ(48) V_SZ(56) V_SZ(64) V_SZ(72) V_SZ(80) V_SZ(96)         \
	V_SZ(112) V_SZ(120) V_SZ(128)
static inline void *
v_memcpy(void *d, const void *s, size_t n)
{
#define V_SZ(k) if (n == k) return memcpy(d, s, k);
	V_SIZES
#undef V_SZ
	return memcpy(d, s, n);
}
static inline void *
v_memmove(void *d, const void *s, size_t n)
{
#define V_SZ(k) if (n == k) return memmove(d, s, k);
	V_SIZES
#undef V_SZ
	return memmove(d, s, n);
}
static inline void *
v_memset(void *d, int c, size_t n)
{
#define V_SZ(k) if (n == k) return memset(d, c, k);
	V_SIZES
#undef V_SZ
	return memset(d, c, n);
}
#define memcpy v_memcpy
#define memmove v_memmove
#define memset v_memset
#endif
#ifndef V_NO_ERROR_STUBS
#include "cconfigspace_internal.h"
#ifdef V_CBMC
/* Object blocks are carved out of one allocation through an integer address
 * (uintptr_t mem; mem += n). CBMC models such integers without provenance, so
 * in the sources included below the type is read as char *: same arithmetic,
 * same addresses, provenance kept. */
typedef char *v_bytes_t;
#define uintptr_t v_bytes_t
#define intptr_t v_bytes_t
#endif
/* The thread-local error stack is an observation channel, not part of any
 * property here (except where a unit says so): reduced to no-ops. */
ccs_result_t
ccs_create_thread_error(ccs_result_t e, const char *m, ...)
{
	(void)m;
	return e;
}
ccs_result_t
ccs_thread_error_stack_push(const char *f, int l, const char *g)
{
	(void)f;
	(void)l;
	(void)g;
	return CCS_RESULT_SUCCESS;
}
#endif

#ifndef V_WITH_CCS
/* defined by src/cconfigspace.c; the unit over that file checks these values */
const ccs_datum_t ccs_none     = CCS_NONE_VAL;
const ccs_datum_t ccs_inactive = CCS_INACTIVE_VAL;
const ccs_datum_t ccs_true     = CCS_TRUE_VAL;
const ccs_datum_t ccs_false    = CCS_FALSE_VAL;
#endif
#ifndef V_CBMC
#ifdef V_HARNESS
void V_HARNESS(void);
int
main(int argc, char **argv)
{
	FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
	unsigned long long x;
	while (f && vnd_n < (1 << 16) && fscanf(f, "%llx", &x) == 1)
		vnd_vals[vnd_n++] = x;
	if (f)
		fclose(f);
	V_HARNESS();
	printf("REPLAY: completed, no failure\n");
	return 0;
}
#endif
#endif
#endif
