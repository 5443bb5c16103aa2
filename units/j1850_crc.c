/* C08: SAE J1850 CRC-8 (polynomial 0x1D, initial value and final complement 0xFF) */
#include "stubs_l1.h"
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) { *pp = NULL; return DIAG_ERR_NOMEM; }
struct diag_msg *diag_allocmsg(size_t n) { return NULL; }
void diag_freemsg(struct diag_msg *m) { }
int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) { return vp_okerr(); }
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned t) { return vp_err(); }
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) { return vp_okerr(); }
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) { return vp_okerr(); }
void diag_l2_addmsg(struct diag_l2_conn *c, struct diag_msg *m) { }
unsigned long long diag_os_gethrt(void) { return 0; }
unsigned long long diag_os_hrtus(unsigned long long x) { return x; }
#include "diag_l2_saej1850.c"
#ifndef MAXN
#define MAXN MAXRBUF
#endif
static uint8_t g_d[MAXN + 1];
static int g_n;
static uint8_t g_S[MAXN + 2];   /* ghost: remainder after the first i bytes */
static uint8_t sp_step(uint8_t r, uint8_t byte) {       /* one byte of polynomial division */
	r ^= byte;
	for (int k = 0; k < 8; k++) { r = (r & 0x80) ? (uint8_t)((r << 1) ^ 0x1D) : (uint8_t)(r << 1); }
	return r;
}
#define ST1(r) ((uint8_t)(((uint8_t)(r) & 0x80) ? (((uint8_t)(r) << 1) ^ 0x1D) : ((uint8_t)(r) << 1)))
#define CL_crc(REQ, ENS, ASG) \
	REQ(p == g_d && n == g_n) \
	ENS("the CRC is the complemented remainder over exactly the n bytes", RESULT == (uint8_t)~g_S[g_n]) \
	ASG()
VP_CONTRACT(uint8_t, k_crc, (uint8_t *p, int n), (p, n), CL_crc, dl2p_j1850_crc(p, n))
void harness(void) {
	VP_BYTES(g_d, MAXN + 1);
	g_n = vp_int();
#ifdef LEN
	g_n = LEN;
#endif
	REQUIRES(g_n >= 0 && g_n <= MAXN);
#if defined(VP_LOOPC) && !defined(VP_REPLAY)
	{
		struct vp_any { uint8_t b[MAXN + 2]; } any;
		*(struct vp_any *)g_S = any;
		__CPROVER_assume(g_S[0] == 0xff);
		for (unsigned i = 0; i < MAXN; i++) { __CPROVER_assume(g_S[i + 1] == sp_step(g_S[i], g_d[i])); }
	}
#else
	g_S[0] = 0xff;
	for (int i = 0; i < g_n; i++) { g_S[i + 1] = sp_step(g_S[i], g_d[i]); }
#endif
	VP_COVER("n > 0", g_n > 0);
	(void)k_crc(g_d, g_n);
}
