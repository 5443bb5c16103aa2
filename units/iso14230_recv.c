/* C04: ISO14230 receive: segmentation, splitting, header stripping, checksum
 * marking, against an arbitrary L1. Real code: diag_l2_iso14230.c diag_general.c
 * CAP: bytes on the wire, per receive */
#define SLOTCAP CAP
#include "stubs_l1.h"
#include "msgstub.h"
uint8_t diag_cks1(const uint8_t *p, unsigned n) { uint8_t s = 0; VP_CHECK("diag_cks1.pre", VP_R_OK(p, n)); for (unsigned i = 0; i < CAP; i++) { if (i < n) { s += p[i]; } } VP_CHECK("unit bound: cks", n <= CAP); return s; }
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) { *pp = NULL; return DIAG_ERR_NOMEM; }
#if defined(LONGF) || defined(FOURF)
static void *vp_bytecopy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) { ((uint8_t *)d)[i] = ((const uint8_t *)s)[i]; } return d; }
#define memcpy vp_bytecopy
#endif
#include "diag_l2_iso14230.c"
#undef memcpy
#ifndef L1FLAGS
#define L1FLAGS 0
#endif
#ifndef CAP
#define CAP 9
#endif
/* SCRIPT: what each L1 read brings: n > 0 bytes, 0 a time-out, < 0 an error */
static const int script[] = { SCRIPT };
#define NSCRIPT (sizeof(script) / sizeof(script[0]))
#define NMSG 3
static struct diag_l0_device g_dev;
static struct diag_l2_link g_link;
static struct diag_l2_conn g_conn;
static struct diag_l2_14230 g_dpo, *g_dp = &g_dpo;
static uint8_t g_raw[CAP];
static unsigned g_timeout;
static struct {
	unsigned reads; unsigned got; unsigned cur; unsigned nmsg; unsigned end[NMSG]; int hard; bool done; bool timedout; unsigned cbs;
} G;
static bool fr(void) { return (g_link.l1flags & DIAG_L1_DOESL2FRAME) != 0; }

int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) { VP_CHECK("receive does not send", false); return vp_okerr(); }
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) { return vp_okerr(); }
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) { VP_CHECK("receive does not send", false); return vp_okerr(); }
int diag_l2_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { return vp_okerr(); }
/* contract of diag_l2_addmsg, proved in C14: appends to the connection's list */
void diag_l2_addmsg(struct diag_l2_conn *c, struct diag_msg *m) {
	VP_CHECK("addmsg.pre", c == &g_conn);
	if (c->diag_msg == NULL) { c->diag_msg = m; }
	else { struct diag_msg *l = c->diag_msg; while (l->next != NULL) { l = l->next; } l->next = m; }
}
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned tout) {
	int rv;
	VP_CHECK("diag_l1_recv.pre: len >= 1", n >= 1);
	VP_CHECK("diag_l1_recv.pre: buffer writable", VP_W_OK(p, n));
	VP_CHECK("reads the link's device", d == &g_dev);
	VP_CHECK("no read after an error or the end of responses", !G.done);
	/* time-outs that delimit bytes, messages and responses */
	if (G.cur > 0) { VP_CHECK("inter-byte time-out", tout == (g_conn.diag_l2_p2min - 2 < g_conn.diag_l2_p1max ? g_conn.diag_l2_p1max : g_conn.diag_l2_p2min - 2)); }
	else if (G.nmsg > 0) { VP_CHECK("inter-message time-out", fr() ? tout == 150 : tout == g_conn.diag_l2_p2max); }
	else { VP_CHECK("first byte: the caller's time-out (extended for smart interfaces)", tout == g_timeout + (fr() && g_timeout < SMART_TIMEOUT ? 100 : 0)); }
	rv = script[G.reads < NSCRIPT ? G.reads : NSCRIPT - 1];
	if (rv == 0) { rv = DIAG_ERR_TIMEOUT; }
	VP_CHECK("the script is long enough", G.reads < NSCRIPT);
	VP_CHECK("diag_l1_recv.pre: room for the bytes", IMPLIES(rv > 0, (size_t)rv <= n));
	G.reads++;
	if (rv > 0) {
		for (int i = 0; i < rv; i++) { ((uint8_t *)p)[i] = g_raw[G.got + (unsigned)i]; }
		G.got += (unsigned)rv; G.cur += (unsigned)rv;
		if (fr()) { G.end[G.nmsg] = G.got; G.nmsg++; G.cur = 0; }
	} else if (rv == DIAG_ERR_TIMEOUT) {
		if (G.cur > 0) { G.end[G.nmsg] = G.got; G.nmsg++; G.cur = 0; }
		else { G.done = true; G.timedout = (G.nmsg == 0); }
	} else { G.done = true; G.hard = rv; }
	return rv;
}

static bool g_ff0;
/* reference parser: returns false if any frame is malformed; else checks the list */
static bool sp_frame(unsigned off, unsigned end, bool ff, unsigned *hdr, unsigned *flen, unsigned *plen) {
	unsigned rem = end - off;
	bool cks = !(g_link.l1flags & DIAG_L1_STRIPSL2CKSUM);
	if (g_link.l1flags & DIAG_L1_NOHDRS) { *hdr = 0; *flen = rem; }
	else {
		uint8_t b0 = g_raw[off];
		bool addr = (b0 & 0x80) != 0;
		if ((b0 & 0xC0) == 0x40 || (!addr && ff)) { return false; }
		*hdr = (addr ? 3 : 1) + ((b0 & 0x3f) ? 0 : 1);
		if (rem < *hdr) { return false; }
		unsigned dl = (b0 & 0x3f) ? (b0 & 0x3f) : g_raw[off + *hdr - 1];
		if (dl == 0) { return false; }
		*flen = fr() ? rem : *hdr + dl + 1;
		if (*flen > rem) { return false; }
	}
	if (*flen < *hdr + 1 + (cks ? 1 : 0)) { return false; }
	*plen = *flen - *hdr - (cks ? 1 : 0);
	return true;
}
static bool sp_all(struct diag_msg *list, bool compare) {
	unsigned off = 0, mi = 0;
	bool ff = g_ff0;
	struct diag_msg *m = list;
	for (unsigned i = 0; i <= NFRAMES; i++) {
		unsigned hdr, flen, plen;
		if (off >= G.got) { if (compare) { VP_CHECK("no message beyond the received frames", m == NULL); } return true; }
		VP_ASSUME(i < NFRAMES);
		while (G.end[mi] <= off) { mi++; }
		if (!sp_frame(off, G.end[mi], ff, &hdr, &flen, &plen)) { return false; }
		ff = false;
		if (compare) {
			VP_CHECK("every received frame is delivered, in order", m != NULL);
			VP_CHECK("payload length", m->len == plen);
			VP_CHECK("payload storage", VP_R_OK(m->data, plen));
			for (unsigned k = 0; k < CAP; k++) { if (k < plen) { VP_CHECK("payload bytes are the frame's data bytes", m->data[k] == g_raw[off + hdr + k]); } }
			bool nohdr = (g_link.l1flags & DIAG_L1_NOHDRS) != 0;
			VP_CHECK("target address", m->dest == (!nohdr && (g_raw[off] & 0x80) ? g_raw[off + 1] : 0));
			VP_CHECK("source address", m->src == (!nohdr && (g_raw[off] & 0x80) ? g_raw[off + 2] : 0));
			VP_CHECK("functional addressing flag", nohdr || IFF(m->fmt & DIAG_FMT_ISO_FUNCADDR, (g_raw[off] & 0xC0) == 0xC0));
			VP_CHECK("framed, checksum removed", (m->fmt & DIAG_FMT_FRAMED) && (m->fmt & DIAG_FMT_CKSUMMED));
			bool badcs = false;
			if (!(g_link.l1flags & DIAG_L1_STRIPSL2CKSUM)) {
				uint8_t s = 0;
				for (unsigned k = 0; k < CAP; k++) { if (k < flen - 1) { s += g_raw[off + k]; } }
				badcs = s != g_raw[off + flen - 1];
			}
			VP_CHECK("a message is marked bad exactly when its checksum is wrong", IFF(m->fmt & DIAG_FMT_BADCS, badcs));
			VP_COVER("bad checksum", badcs);
			m = m->next;
		}
		off += flen;
	}
	return true;
}
static void cb(void *h, struct diag_msg *m) {
	VP_CHECK("callback handle", h == (void *)&G);
	G.cbs++;
	VP_CHECK("delivered only when every frame is well formed", sp_all(m, true));
	VP_COVER("two messages", m->next != NULL);
}
void harness(void) {
	VP_BYTES(g_raw, CAP);
#ifdef LONGF
	/* a 260-byte frame followed by a 3-byte one; contents arbitrary */
	g_raw[0] = 0x80; g_raw[3] = 255; g_raw[260] = 0x01;
#endif
#ifdef FOURF
	/* four frames run together; contents arbitrary */
	g_raw[0] = 0x01; g_raw[3] = 0x01; g_raw[6] = 0x81; g_raw[11] = 0x02;
#endif
	g_link.l2_dl0d = &g_dev;
	g_link.l1flags = L1FLAGS;
	g_conn.diag_link = &g_link;
	g_conn.diag_l2_proto_data = g_dp;
	g_conn.diag_l2_p2min = vp_u16(); g_conn.diag_l2_p2max = vp_u16(); g_conn.diag_l2_p1max = vp_u16();
	REQUIRES(g_conn.diag_l2_p2min >= 2);
	g_conn.diag_msg = NULL;
	g_dp->first_frame = g_ff0 = vp_bool();
#if defined(LONGF) || defined(FOURF)
	g_dp->first_frame = g_ff0 = false;
#endif
	g_dp->monitor_mode = false;
	g_dp->rxoffset = 0;
	g_timeout = vp_u16();
	diag_l2_debug = 0;
	vp_oom = OOM;
	int rv = diag_l2_proto_iso14230.diag_l2_proto_recv(&g_conn, g_timeout, cb, &G);
	vp_oom = false;
	ENSURES("0 or error", rv <= 0);
	ENSURES("messages are delivered in one callback on success and never on failure", G.cbs == (rv == 0 ? 1 : 0));
	if (!ms_failed) {
		ENSURES("nothing received in time is a time-out", IMPLIES(G.timedout, rv == DIAG_ERR_TIMEOUT));
		ENSURES("L1 errors are reported", IMPLIES(G.hard, rv == G.hard));
		if (!G.timedout && !G.hard) { ENSURES("well-formed responses are delivered, malformed ones are an error", IFF(rv == 0, sp_all(NULL, false))); }
	}
	ENSURES("nothing is left queued on the connection", g_conn.diag_msg == NULL && g_dp->rxoffset == 0);
	ENSURES("no storage leaks", ms_nlive == 0);
	VP_COVER("delivered", rv == 0);
	VP_COVER("rejected", rv == DIAG_ERR_BADDATA);
}
