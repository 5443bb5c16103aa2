/*
 * vp.h : contract vocabulary shared by every verification unit.
 *
 * A unit is one C file that #includes the REAL source file(s) of /repo and
 * states contracts on the functions found there. The same text is compiled
 * twice:
 *   - by goto-cc (CBMC): nondeterministic values are unconstrained, REQUIRES
 *     are assumed, ENSURES are proof obligations;
 *   - by gcc with -DVP_REPLAY (ASan+UBSan): nondeterministic values come from
 *     a file (the verifier's counterexample), ENSURES are run-time checks.
 */
#ifndef VP_H
#define VP_H

#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <limits.h>
#include <errno.h>
#include <assert.h>
#include <ctype.h>
#include <stdarg.h>
#include <time.h>
#include <math.h>
#include <inttypes.h>

#ifndef VP_REPLAY
/* ------------------------------------------------------------- CBMC side */
#define VP_ND_(T, N) static inline T N(void) { T vp_x; __CPROVER_input("nd", vp_x); return vp_x; }
VP_ND_(uint8_t, vp_u8)
VP_ND_(uint16_t, vp_u16)
VP_ND_(unsigned int, vp_uint)
VP_ND_(int, vp_int)
VP_ND_(size_t, vp_size)
VP_ND_(unsigned long, vp_ulong)
VP_ND_(long, vp_long)
static inline bool vp_bool(void) { uint8_t vp_x; __CPROVER_input("nd", vp_x); return (vp_x & 1) != 0; }
/* fill N (a constant) bytes at DST with unconstrained values */
#define VP_BYTES(DST, N) do { \
		struct vp_bytes { uint8_t b[N]; } vp_b; \
		*(struct vp_bytes *)(DST) = vp_b; \
		__CPROVER_input("ndb", vp_b); \
	} while (0)

#define VP_ASSUME(C) __CPROVER_assume(C)
#define VP_R_OK(P, N) __CPROVER_r_ok((P), (N))
#define VP_W_OK(P, N) __CPROVER_w_ok((P), (N))
#ifdef VP_COVERMODE
  #define VP_CHECK(NAME, C) do { (void)(C); } while (0)
  #define VP_COVER(NAME, C) __CPROVER_assert(!(C), "VPCOVER:" NAME)
#else
  #define VP_CHECK(NAME, C) __CPROVER_assert((C), NAME)
  #define VP_COVER(NAME, C) do { (void)0; } while (0)
#endif
#define VP_CUT() __CPROVER_assume(0)

#else
/* ----------------------------------------------------------- replay side */
#ifdef __cplusplus
#error C only
#endif
extern uint64_t vp_next(int bytes);
extern void vp_nextbytes(void *dst, size_t n);
extern void vp_fail(const char *name, const char *file, int line);
extern void vp_invalid(const char *file, int line);
#define VP_ND_(T, N) static inline T N(void) { return (T)vp_next(sizeof(T)); }
VP_ND_(uint8_t, vp_u8)
VP_ND_(uint16_t, vp_u16)
VP_ND_(unsigned int, vp_uint)
VP_ND_(int, vp_int)
VP_ND_(size_t, vp_size)
VP_ND_(unsigned long, vp_ulong)
VP_ND_(long, vp_long)
static inline bool vp_bool(void) { return (vp_next(1) & 1) != 0; }
#define VP_BYTES(DST, N) vp_nextbytes((DST), (N))
#define VP_ASSUME(C) do { if (!(C)) vp_invalid(__FILE__, __LINE__); } while (0)
/* memory predicates: the sanitizer decides; touch first and last byte */
#define VP_R_OK(P, N) vp_touch((P), (N))
#define VP_W_OK(P, N) vp_touch((P), (N))
static inline bool vp_touch(const void *p, size_t n) {
	volatile const uint8_t *q = p;
	volatile uint8_t sink;
	for (size_t i = 0; i < n; i++) {
		sink = q[i];
	}
	(void)sink;
	return true;
}
#define VP_CHECK(NAME, C) do { if (!(C)) vp_fail((NAME), __FILE__, __LINE__); } while (0)
#define VP_COVER(NAME, C) do { (void)0; } while (0)
#define VP_CUT() vp_invalid(__FILE__, __LINE__)
#define __CPROVER_assert(C, NAME) VP_CHECK(NAME, C)
#define __CPROVER_assume(C) VP_ASSUME(C)
#endif

/* Contract vocabulary, used in the bodies of the contract harnesses */
#define REQUIRES(C) VP_ASSUME(C)
#define ENSURES(NAME, C) VP_CHECK(NAME, C)
/* "for all k": an arbitrary witness index, chosen before the call */
#define FORALL_WITNESS() vp_uint()
#define IMPLIES(A, B) (!(A) || (B))
#define IFF(A, B) (!(A) == !(B))

/*
 * Contracts for dfcc enforcement (frame conditions are then obligations too).
 * CL(REQ, ENS, ASG): macro listing the clauses; result is RESULT.
 */
#if defined(VP_DFCC) && !defined(VP_REPLAY)
  #define VP_DREQ_(C) __CPROVER_requires(C)
  #define VP_DENS_(NAME, C) __CPROVER_ensures(C)
  #define VP_DASG_(...) __CPROVER_assigns(__VA_ARGS__)
  #define RESULT __CPROVER_return_value
  #define VP_CONTRACT(RET, FN, PARAMS, ARGS, CL, CALL) \
	RET FN PARAMS CL(VP_DREQ_, VP_DENS_, VP_DASG_) { return CALL; }
  #define VP_CONTRACT_VOID(FN, PARAMS, ARGS, CL, CALL) \
	void FN PARAMS CL(VP_DREQ_, VP_DENS_, VP_DASG_) { CALL; }
#else
  #define VP_NREQ_(C)
  #define VP_NENS_(NAME, C)
  #define VP_SREQ_(C) VP_ASSUME(C);
  #define VP_SENS_(NAME, C) VP_CHECK(NAME, C);
  #define VP_SASG_(...)
  #define RESULT vp_result
  #define VP_CONTRACT(RET, FN, PARAMS, ARGS, CL, CALL) \
	RET FN PARAMS { CL(VP_SREQ_, VP_NENS_, VP_SASG_) RET vp_result = CALL; \
	CL(VP_NREQ_, VP_SENS_, VP_SASG_) return vp_result; }
  #define VP_CONTRACT_VOID(FN, PARAMS, ARGS, CL, CALL) \
	void FN PARAMS { CL(VP_SREQ_, VP_NENS_, VP_SASG_) CALL; \
	CL(VP_NREQ_, VP_SENS_, VP_SASG_) }
#endif

/*
 * Heap: counted, and (when vp_oom is set) any allocation may fail.
 */
static long vp_live;            /* blocks currently allocated */
static bool vp_oom;             /* allocations may fail */
static long vp_nofail;          /* allocations that failed so far */

static inline void *vp_malloc(size_t n) {
	if (vp_oom && vp_bool()) {
		vp_nofail++;
		return NULL;
	}
	void *p = malloc(n);
	VP_ASSUME(p != NULL);
	vp_live++;
	return p;
}
static inline void *vp_calloc(size_t n, size_t s) {
	if (vp_oom && vp_bool()) {
		vp_nofail++;
		return NULL;
	}
	void *p = calloc(n, s);
	VP_ASSUME(p != NULL);
	vp_live++;
	return p;
}
static inline void vp_free(void *p) {
	if (p != NULL) {
		vp_live--;
	}
	free(p);
}
static inline void *vp_realloc(void *o, size_t n) {
	if (vp_oom && vp_bool()) {
		vp_nofail++;
		return NULL;
	}
	void *p = realloc(o, n);
	VP_ASSUME(p != NULL);
	if (o == NULL) {
		vp_live++;
	}
	return p;
}
static inline char *vp_strdup(const char *s) {
	size_t n = strlen(s);
	char *p = vp_malloc(n + 1);
	if (p) {
		memcpy(p, s, n + 1);
	}
	return p;
}

/* diagnostics output is not modelled (no property observes stderr) */
#ifndef VP_REPLAY
static inline int vp_fprintf(FILE *f, const char *fmt, ...) { (void)f; (void)fmt; return 0; }
static inline int vp_printf(const char *fmt, ...) { (void)fmt; return 0; }
#ifndef VP_KEEP_STDIO
#undef fprintf
#undef printf
#define fprintf vp_fprintf
#define printf vp_printf
#endif
#endif

#ifndef VP_KEEP_HEAP
#define malloc(n) vp_malloc(n)
#define calloc(n, s) vp_calloc((n), (s))
#define free(p) vp_free(p)
#define realloc(p, n) vp_realloc((p), (n))
#undef strdup
#define strdup(s) vp_strdup(s)
#endif

#endif
