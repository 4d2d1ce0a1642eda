/* Common definitions for contract harnesses (CBMC proof / CBMC bounded /
 * native replay of a counterexample). */
#ifndef VF_H
#define VF_H
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/param.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <unistd.h>
#include <sys/endian.h>

/* Exactly one of VF_PROOF, VF_BOUNDED, VF_NATIVE */
#ifdef VF_NATIVE
uint64_t vf_native_next(void);
void vf_native_assume(int ok, const char *s, const char *f, int l);
void vf_native_check(int ok, const char *s);
void vf_native_fail(const char *why) __attribute__((noreturn));
#define ASSUME(c)	vf_native_assume(!!(c), #c, __FILE__, __LINE__)
#define CHECK(c, m)	vf_native_check(!!(c), m)
#define COVER(m)	((void)0)
#define VF_ND()		vf_native_next()
#define __CPROVER_assume(c) ASSUME(c)
#else
uint64_t nondet_u64(void);
extern uint64_t vf_nd_log;
#define ASSUME(c)	__CPROVER_assume(c)
#define CHECK(c, m)	__CPROVER_assert(c, m)
#ifdef VF_NOCOVER
#define COVER(m)	((void)0)
#else
#define COVER(m)	__CPROVER_assert(0, "REACH " m)
#endif
static inline uint64_t VF_ND(void) { uint64_t v = nondet_u64(); vf_nd_log = v; return (v); }
#endif

#define ND8()	((uint8_t)VF_ND())
#define ND32()	((uint32_t)VF_ND())
#define ND64()	((uint64_t)VF_ND())
#define NDI()	((int)VF_ND())
#define NDB()	((int)(VF_ND() & 1))

static inline uint64_t
vf_range(uint64_t lo, uint64_t hi)
{
	uint64_t v = VF_ND();
	ASSUME(v >= lo && v <= hi);
	return (v);
}

/* A buffer of n arbitrary bytes */
static inline void *
vf_bytes(size_t n)
{
	uint8_t *p = malloc(n ? n : 1);
	ASSUME(p != NULL);
#if !defined(VF_PROOF)
	for (size_t i = 0; i < n; i++)
		p[i] = ND8();
#endif
	return (p);
}

/* How an assertion failure inside the code under contract is judged:
 * VF_LOUD_OK: it stops the program loudly, which the contract allows;
 * otherwise: it is a violation (the code must not give up on this input). */
#include "vdef.h"
#include "vas.h"
#ifdef VF_NATIVE
static void vf_vas_fail(const char *fn, const char *e)
{
#ifdef VF_LOUD_OK
	vf_native_assume(0, e, fn, 0);
#else
	(void)fn;
	vf_native_check(0, e);
#endif
}
#define VAS_Fail(fn, f, l, e, k) do { vf_vas_fail(fn, e); vf_native_fail("VAS"); } while (0)
#elif defined(VF_LOUD_OK)
#define VAS_Fail(fn, f, l, e, k) __CPROVER_assume(0)
#else
#define VAS_Fail(fn, f, l, e, k) do { \
	__CPROVER_assert(0, "no internal assertion failure: " e); __CPROVER_assume(0); } while (0)
#endif

/* 32-byte records compared as memcmp() does, without a loop */
#define VFW(p, i)	__builtin_bswap64(((const uint64_t *)(const void *)(p))[i])
#define REC_EQ(a, b)	(VFW(a,0)==VFW(b,0) && VFW(a,1)==VFW(b,1) && \
			 VFW(a,2)==VFW(b,2) && VFW(a,3)==VFW(b,3))
#define REC_LT(a, b)	(VFW(a,0)<VFW(b,0) || (VFW(a,0)==VFW(b,0) && \
			(VFW(a,1)<VFW(b,1) || (VFW(a,1)==VFW(b,1) && \
			(VFW(a,2)<VFW(b,2) || (VFW(a,2)==VFW(b,2) && \
			 VFW(a,3)<VFW(b,3)))))))
#define REC_LE(a, b)	(!REC_LT(b, a))
#endif
