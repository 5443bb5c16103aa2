/* C04: ISO14230 header decode. Real code: dl2p_14230_decode (all inputs) */
#include "l2env.h"
#include "diag_l2_iso14230.c"
int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) { return vp_okerr(); }
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned t) { return vp_err(); }
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) { return vp_okerr(); }
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) { return vp_okerr(); }
int diag_l2_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { return vp_okerr(); }
void diag_l2_addmsg(struct diag_l2_conn *c, struct diag_msg *m) { }

static uint8_t g_data[MAXRBUF];
static int g_len, g_dl, g_ff;
static uint8_t g_hl, g_s, g_d;
static bool sp_addr(void) { return (g_data[0] & 0xC0) == 0x80 || (g_data[0] & 0xC0) == 0xC0; }
static int sp_hdr(void) { return (sp_addr() ? 3 : 1) + ((g_data[0] & 0x3f) ? 0 : 1); }
static int sp_dlen(void) { return (g_data[0] & 0x3f) ? (g_data[0] & 0x3f) : g_data[sp_addr() ? 3 : 1]; }
static bool sp_badfmt(void) { return (g_data[0] & 0xC0) == 0x40 || (!sp_addr() && g_ff); }
#define CL_dec(REQ, ENS, ASG) \
	REQ(data == g_data && len == g_len) \
	ENS("CARB-mode or (first frame) address-less header is bad data", IMPLIES(sp_badfmt(), RESULT == DIAG_ERR_BADDATA)) \
	ENS("incomplete header", IMPLIES(!sp_badfmt() && g_len < sp_hdr(), RESULT == DIAG_ERR_INCDATA)) \
	ENS("zero data length is bad data", IMPLIES(!sp_badfmt() && g_len >= sp_hdr() && sp_dlen() == 0, RESULT == DIAG_ERR_BADDATA)) \
	ENS("complete header: frame length is header + data + checksum", IMPLIES(!sp_badfmt() && g_len >= sp_hdr() && sp_dlen() != 0, RESULT == sp_hdr() + sp_dlen() + 1 && g_hl == sp_hdr() && g_dl == sp_dlen())) \
	ENS("addresses", IMPLIES(RESULT > 0, g_d == (sp_addr() ? g_data[1] : 0) && g_s == (sp_addr() ? g_data[2] : 0))) \
	ASG(g_hl, g_s, g_d, g_dl)
VP_CONTRACT(int, k_decode, (uint8_t *data, int len, uint8_t *hl, int *dl, uint8_t *s, uint8_t *d, int ff), (data, len, hl, dl, s, d, ff), CL_dec,
            dl2p_14230_decode(data, len, hl, dl, s, d, ff))
void harness(void) {
	g_len = vp_int();
	REQUIRES(g_len >= 1 && g_len <= MAXRBUF);
	VP_BYTES(g_data, MAXRBUF);
	/* bytes behind the received ones do not exist */
	uint8_t *p = g_data;
	g_ff = vp_bool();
	g_hl = 0; g_s = 0; g_d = 0; g_dl = 0;
	diag_l2_debug = vp_int();
	int rv = k_decode(p, g_len, &g_hl, &g_dl, &g_s, &g_d, g_ff);
	VP_COVER("ok", rv == 260);
	VP_COVER("inc", rv == DIAG_ERR_INCDATA);
}
