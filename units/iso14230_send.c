/* C03: ISO14230 send framing. Real code: diag_l2_iso14230.c */
#include "stubs_l1.h"
#include "diag_l2_iso14230.c"

#ifndef MAXLEN
#define MAXLEN DIAG_MAX_MSGLEN
#endif

static struct {
	unsigned sends; size_t len; int rv; unsigned p4; unsigned long slept_at_send;
	unsigned cks_calls; const uint8_t *cks_p; unsigned cks_len; uint8_t cks_val, cks_wit;
} G;
static unsigned g_k, g_j;                   /* arbitrary payload witness index */
static struct diag_l0_device g_dev;
static struct diag_l2_link g_link;
static struct diag_l2_conn g_conn;
static struct diag_l2_14230 g_dp;
static struct diag_msg g_msg;
static uint8_t g_data[MAXLEN];

/* ---- specification: ISO14230-2 header for this session and message ---- */
static bool sp_longhdr(void) { return (g_dp.modeflags & ISO14230_LONGHDR) || !(g_dp.modeflags & ISO14230_SHORTHDR); }
static bool sp_fmtlen_ok(void) { return (g_dp.modeflags & ISO14230_FMTLEN) || !(g_dp.modeflags & ISO14230_LENBYTE); }
static bool sp_lenbyte_ok(void) { return (g_dp.modeflags & ISO14230_LENBYTE) != 0; }
static bool sp_uses_lenbyte(void) { return !(sp_fmtlen_ok() && g_msg.len < 64); }
static bool sp_encodable(void) {
	if (g_msg.len < 1) { return false; }
	if (sp_fmtlen_ok() && g_msg.len < 64) { return true; }
	return sp_lenbyte_ok() && g_msg.len <= 255;
}
static unsigned sp_hdrlen(void) { return (sp_longhdr() ? 3 : 1) + (sp_uses_lenbyte() ? 1 : 0); }
static uint8_t sp_hdr(unsigned i) {
	uint8_t fmt = (sp_longhdr() ? ((g_dp.modeflags & ISO14230_FUNCADDR) ? 0xC0 : 0x80) : 0) | (sp_uses_lenbyte() ? 0 : g_msg.len);
	if (i == 0) { return fmt; }
	if (sp_longhdr()) {
		if (i == 1) { return g_msg.dest ? g_msg.dest : g_dp.dstaddr; }
		if (i == 2) { return g_msg.src ? g_msg.src : g_dp.srcaddr; }
	}
	return (uint8_t)g_msg.len;
}

#ifdef VP_SEM
static uint8_t real_sum(const uint8_t *p, size_t n) { uint8_t s = 0; for (size_t i = 0; i < n; i++) { s += p[i]; } return s; }
uint8_t diag_cks1(const uint8_t *data, unsigned int len) { return real_sum(data, len); }
#else
uint8_t diag_cks1(const uint8_t *data, unsigned int len) {
	uint8_t v = vp_u8();
	VP_CHECK("diag_cks1.pre: summed bytes are readable", VP_R_OK(data, len));
	G.cks_calls++; G.cks_p = data; G.cks_len = len;
#ifdef VP_REPLAY
	v = 0; for (unsigned i = 0; i < len; i++) { v += data[i]; }
#endif
	G.cks_val = v; if (g_j < len) { G.cks_wit = data[g_j]; }
	return v;
}
#endif

int diag_l1_send(struct diag_l0_device *dev, const void *vdata, size_t len, unsigned int p4) {
	const uint8_t *d = vdata;
	int rv = vp_okerr();
	VP_CHECK("diag_l1_send.pre: len >= 1", len >= 1);
	VP_CHECK("diag_l1_send.pre: frame bytes are readable", VP_R_OK(vdata, len));
	VP_CHECK("send goes to the link's device", dev == g_link.l2_dl0d);
	G.sends++; G.len = len; G.rv = rv; G.p4 = p4; G.slept_at_send = g_slept;
	if (g_link.l1flags & DIAG_L1_DATAONLY) {
		VP_CHECK("headerless L1: exactly the payload is sent", len == g_msg.len);
		VP_CHECK("headerless L1: payload bytes unchanged", IMPLIES(g_k < g_msg.len, d[g_k] == g_msg.data[g_k]));
		return rv;
	}
	bool cks = !(g_link.l1flags & DIAG_L1_DOESL2CKSUM);
	unsigned h = sp_hdrlen();
	VP_CHECK("frame length = header + payload + checksum", len == (size_t)h + g_msg.len + (cks ? 1 : 0));
	VP_CHECK("a message the header cannot describe is never sent", sp_encodable());
	VP_CHECK("format byte", d[0] == sp_hdr(0));
	if (h > 1) { VP_CHECK("header byte 1 (target address or length)", d[1] == sp_hdr(1)); }
	if (h > 2) { VP_CHECK("header byte 2 (source address)", d[2] == sp_hdr(2)); }
	if (h > 3) { VP_CHECK("header byte 3 (length)", d[3] == sp_hdr(3)); }
	VP_CHECK("payload bytes follow the header unchanged", IMPLIES(g_k < g_msg.len, d[h + g_k] == g_msg.data[g_k]));
	if (cks) {
#if defined(VP_SEM) || defined(VP_REPLAY)
		uint8_t s = 0; for (size_t i = 0; i + 1 < len; i++) { s += d[i]; }
		VP_CHECK("last byte is the sum of all preceding frame bytes", d[len - 1] == s);
#else
		VP_CHECK("checksum computed over exactly the preceding frame bytes", G.cks_calls >= 1 && G.cks_p == d && G.cks_len == len - 1);
		VP_CHECK("checksum is appended", d[len - 1] == G.cks_val);
		VP_CHECK("bytes are not changed after the checksum was computed", IMPLIES(g_j < len - 1, G.cks_wit == d[g_j]));
#endif
	}
	VP_COVER("short header", !sp_longhdr());
	VP_COVER("length byte", sp_uses_lenbyte());
	VP_COVER("long frame", len > 200);
	VP_COVER("no cksum", !cks);
	return rv;
}

/* not reached from send */
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned t) { VP_CHECK("send does not receive", false); return vp_err(); }
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) { return vp_okerr(); }
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) { return vp_okerr(); }
int diag_l2_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { return vp_okerr(); }
void diag_l2_addmsg(struct diag_l2_conn *c, struct diag_msg *m) { }
struct diag_msg *diag_allocmsg(size_t n) { return NULL; }
struct diag_msg *diag_dupsinglemsg(struct diag_msg *m) { return NULL; }
void diag_freemsg(struct diag_msg *m) { }
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) { *pp = NULL; return DIAG_ERR_NOMEM; }

#define CL_send(REQ, ENS, ASG) \
	REQ(c == &g_conn && m == &g_msg) \
	ENS("0 exactly when the frame was handed to L1 and accepted, else the error", RESULT == (G.sends ? G.rv : RESULT) && IMPLIES(!G.sends, RESULT < 0)) \
	ENS("at most one frame per send", G.sends <= 1) \
	ENS("empty message refused", IMPLIES(g_msg.len == 0, RESULT == DIAG_ERR_BADLEN && G.sends == 0)) \
	ENS("every describable message is sent", IMPLIES(sp_encodable() || ((g_link.l1flags & DIAG_L1_DATAONLY) && g_msg.len > 0), G.sends == 1)) \
	ENS("undescribable message refused with bad length", IMPLIES(!sp_encodable() && !(g_link.l1flags & DIAG_L1_DATAONLY), RESULT == DIAG_ERR_BADLEN && G.sends == 0)) \
	ENS("inter-byte time P4 min is requested", IMPLIES(G.sends, G.p4 == g_conn.diag_l2_p4min)) \
	ENS("P3 min is waited before the frame in an established session", IMPLIES(G.sends && g_dp.state == STATE_ESTABLISHED && !(g_link.l1flags & DIAG_L1_DATAONLY), G.slept_at_send >= g_conn.diag_l2_p3min)) \
	ASG(G, g_slept, g_nsleeps)
VP_CONTRACT(int, k_send, (struct diag_l2_conn *c, struct diag_msg *m), (c, m), CL_send,
            diag_l2_proto_iso14230.diag_l2_proto_send(c, m))

void harness(void) {
	VP_BYTES(&g_data, sizeof(g_data));
	g_link.l2_dl0d = &g_dev;
	g_link.l1flags = vp_uint();
	g_conn.diag_link = &g_link;
	g_conn.diag_l2_proto_data = &g_dp;
	g_conn.diag_l2_p4min = vp_u16();
	g_conn.diag_l2_p3min = vp_u16();
	g_dp.modeflags = vp_int();
	g_dp.srcaddr = vp_u8(); g_dp.dstaddr = vp_u8();
	g_dp.state = vp_bool() ? STATE_ESTABLISHED : STATE_CONNECTING;
	g_msg.fmt = vp_u8(); g_msg.src = vp_u8(); g_msg.dest = vp_u8();
	g_msg.len = vp_uint();
#ifdef LEN
	g_msg.len = LEN;
#endif
	REQUIRES(g_msg.len <= MAXLEN);
	g_msg.data = g_data;
	diag_l2_debug = vp_int();
	g_k = FORALL_WITNESS();
	g_j = FORALL_WITNESS();
	memset(&G, 0, sizeof(G));
	g_slept = 0;
	(void)k_send(&g_conn, &g_msg);
}
