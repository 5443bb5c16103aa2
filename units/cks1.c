/* C02: diag_cks1. Real code: diag_general.c */
#include "general.h"
#ifndef MAXN
#define MAXN 5000u
#endif
#ifdef SPARSE
#undef MAXN
#define MAXN LEN
#endif
static uint8_t g_d[MAXN + 1];
static size_t g_n;
static uint8_t g_S[MAXN + 2];       /* ghost: g_S[i] = sum of g_d[i..g_n) mod 256 */

#define CL_cks(REQ, ENS, ASG) \
	REQ(p == g_d && n == g_n) \
	ENS("the result is the sum of exactly the n bytes, modulo 256", RESULT == g_S[0]) \
	ASG()
VP_CONTRACT(uint8_t, k_cks, (const uint8_t *p, unsigned n), (p, n), CL_cks, diag_cks1(p, n))

void harness(void) {
#ifndef SPARSE
	VP_BYTES(g_d, MAXN + 1);
#endif
	g_n = vp_uint();
#ifdef LEN
	g_n = LEN;
#endif
	REQUIRES(g_n <= MAXN);
#ifdef SPARSE
	for (unsigned i = 0; i < MAXN; i++) { g_d[i] = (uint8_t)(i * 13 + 5); }
	g_d[0] = vp_u8(); g_d[1] = vp_u8(); g_d[LEN / 2] = vp_u8(); g_d[254] = vp_u8(); g_d[LEN - 2] = vp_u8(); g_d[LEN - 1] = vp_u8();
#endif
#if defined(VP_LOOPC) && !defined(VP_REPLAY)
	{
		uint8_t any[MAXN + 2];
		memcpy(g_S, any, sizeof(any));
		__CPROVER_assume(g_S[g_n] == 0);
		__CPROVER_assume(__CPROVER_forall { size_t i; (i < MAXN) ==> (g_S[i] == (uint8_t)(g_S[i + 1] + g_d[i])) });
	}
#else
	g_S[g_n] = 0;
	for (unsigned i = g_n; i-- > 0; ) { g_S[i] = (uint8_t)(g_S[i + 1] + g_d[i]); }
#endif
	VP_COVER("n > 0", g_n > 0);
	(void)k_cks(g_d, g_n);
}
