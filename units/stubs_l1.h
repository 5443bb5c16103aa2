/*
 * Contracts of the layers below an L2 protocol, in executable form: each
 * function asserts its precondition (an obligation of the caller), records
 * ghost state, and returns an arbitrary value satisfying its postcondition.
 *
 *  diag_l1_send(dev,data,len,p4):  requires len>=1, data readable;
 *                                  returns 0 or a negative error
 *  diag_l1_recv(dev,data,len,tmo): requires len>=1, data writable for len;
 *                                  returns 1..len with that many arbitrary
 *                                  bytes stored, or a negative error; never 0
 *                                  (unless G1.recv_zero_ok)
 *  diag_l1_ioctl / diag_l2_ioctl:  returns 0 or a negative error
 *  diag_cks1(data,len):            requires data readable; returns the sum of
 *                                  the bytes modulo 256 (proved for diag_cks1
 *                                  itself in C02; here either the real code,
 *                                  or the value of an uninterpreted sum)
 */
#ifndef STUBS_L1_H
#define STUBS_L1_H
#include "diag.h"
#include "diag_os.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_dtc.h"
#include "diag_cfg.h"
#include "diag_tty.h"

int diag_l0_debug, diag_l1_debug, diag_l2_debug, diag_l3_debug;

/* error helpers: the contract is "returns the code / NULL" (see C20) */
void *diag_p_pseterr(const char *n, const int l, const int c) { (void)n; (void)l; (void)c; return NULL; }
int diag_p_iseterr(const char *n, const int l, const int c) { (void)n; (void)l; return c; }
void *diag_p_pfwderr(const char *n, const int l, const int c) { (void)n; (void)l; (void)c; return NULL; }
int diag_p_ifwderr(const char *n, const int l, const int c) { (void)n; (void)l; return c; }
void diag_data_dump(FILE *out, const void *data, size_t len) {
	(void)out;
	if (len > 0) {
		VP_CHECK("diag_data_dump.pre: the dumped bytes are readable", VP_R_OK(data, len));
	}
}
const char *diag_errlookup(const int code) { (void)code; return "err"; }

#ifndef STUBS_NO_MS
static unsigned long g_slept;          /* total ms slept */
static unsigned int g_nsleeps;
void diag_os_millisleep(unsigned int ms) { g_slept += ms; g_nsleeps++; }
static unsigned long g_now;            /* never decreasing */
unsigned long diag_os_getms(void) {
	unsigned long d = vp_uint();
	g_now += d;
	return g_now;
}
#endif

static inline int vp_err(void) {       /* any strictly negative error */
	int e = vp_int();
	VP_ASSUME(e < 0 && e >= -100);
	return e;
}
static inline int vp_okerr(void) {     /* 0 or negative error */
	int e = vp_int();
	VP_ASSUME(e <= 0 && e >= -100);
	return e;
}
#endif
