/* C05: ISO14230 request: response classification, RspPending, BusyRepeatRequest.
 * L1 delivers one payload per read (framing itself is C04). Every event
 * sequence of length DEPTH (plus PREFIX) is run; payload bytes are arbitrary. */
#define SLOTCAP 4
#ifndef NSLOTS
#define NSLOTS 6
#endif
#define MS_CHAINMAX 4
#include "stubs_l1.h"
#include "msgstub.h"
uint8_t diag_cks1(const uint8_t *p, unsigned n) { return vp_u8(); }
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) { *pp = NULL; return DIAG_ERR_NOMEM; }
#include "diag_l2_iso14230.c"
#define KREADS 24
/* events: P positive response, S response pending, B busy-repeat, N other negative response,
 * n 2-byte negative response, m 1-byte negative response, T time-out, E bus error, F time-out and the next send fails */
static const char evs[] = "PSBNTEnm";
#define NEV 8
#ifndef PREFIX
#define PREFIX ""
#endif
static const char prefix[] = PREFIX;
static char script[KREADS];
static struct diag_l0_device g_dev;
static struct diag_l2_link g_link;
static struct diag_l2_conn g_conn;
static struct diag_l2_14230 g_dp;
static struct diag_msg g_req;
static unsigned g_failsend;
static struct {
	unsigned reads, sends; int hard; bool failed_send;
	/* specification state */
	bool ended;          /* the last reception ended (time-out after messages, or failure) */
	unsigned inq;        /* messages received and not yet consumed by the specification */
	char qe[KREADS]; uint8_t q0[KREADS], q2[KREADS]; unsigned ql[KREADS]; unsigned nq;   /* all payloads of this reception, in order */
} G;
int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) { VP_CHECK("requests go through L2 send", false); return vp_okerr(); }
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) { return vp_okerr(); }
int diag_l2_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { return vp_okerr(); }
void diag_l2_addmsg(struct diag_l2_conn *c, struct diag_msg *m) {
	VP_CHECK("addmsg.pre", c == &g_conn);
	if (c->diag_msg == NULL) { c->diag_msg = m; }
	else { struct diag_msg *l = c->diag_msg; for (int i = 0; i < MS_CHAINMAX && l->next != NULL; i++) { l = l->next; } l->next = m; }
}
/* specification: consume what is queued; decides what must happen next */
enum { MUST_READ, MUST_SEND, MUST_RETURN, MUST_FAIL } g_next;
static int g_ret;                 /* index of the payload to be returned */
static int g_reterr; static unsigned g_c; static unsigned g_busy;
static void spec_step(void) {
	/* called when a reception has ended with G.nq payloads */
	while (g_c < G.nq) {
		if (G.qe[g_c] == 'P') { g_next = MUST_RETURN; g_ret = (int)g_c; g_reterr = 0; return; }
		if (G.qe[g_c] == 'B') {
			G.nq = 0; g_c = 0;
			g_busy++;
			if (g_busy > 3) { g_next = MUST_FAIL; g_reterr = DIAG_ERR_GENERAL; } else { g_next = MUST_SEND; }
			return;
		}
		if (G.qe[g_c] == 'S') { g_c++; continue; }
		g_next = MUST_RETURN; g_ret = (int)g_c; g_reterr = DIAG_ERR_ECUSAIDNO; return;
	}
	G.nq = 0; g_c = 0;
	g_next = MUST_READ;
}
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) {
	int rv = G.sends + 1 == g_failsend ? DIAG_ERR_BUSERROR : 0;
	VP_CHECK("the caller's request is sent unchanged on this connection", c == &g_conn && m == &g_req);
	VP_CHECK("sent first, and again only after a busy-repeat response", g_next == MUST_SEND);
	VP_CHECK("at most 3 repetitions", G.sends < 4);
	G.sends++;
	if (rv < 0) { g_next = MUST_FAIL; g_reterr = rv; } else { g_next = MUST_READ; }
	return rv;
}
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned tout) {
	int rv; char e;
	VP_CHECK("reads only when a response is due", g_next == MUST_READ);
	VP_CHECK("diag_l1_recv.pre", n >= 4 && VP_W_OK(p, 4));
	e = script[G.reads < KREADS ? G.reads : KREADS - 1];
	G.reads++;
	switch (e) {
	case 'P': case 'S': case 'B': case 'N': rv = 4; break;
	case 'n': rv = 2; break;
	case 'm': rv = 1; break;
	case 'E': rv = DIAG_ERR_BUSERROR; break;
	default: rv = DIAG_ERR_TIMEOUT; break;
	}
	if (rv > 0) {
		uint8_t b0 = 0x7f, b2 = e == 'S' ? DIAG_KW2K_RC_RCR_RP : e == 'B' ? DIAG_KW2K_RC_B_RR : vp_u8();
		uint8_t *q = p;
		if (e == 'P') { b0 = vp_u8(); VP_ASSUME(b0 != 0x7f); }
		if (e == 'N') { VP_ASSUME(b2 != DIAG_KW2K_RC_RCR_RP && b2 != DIAG_KW2K_RC_B_RR); }
		q[0] = b0; if (rv > 1) { q[1] = vp_u8(); } if (rv > 2) { q[2] = b2; q[3] = vp_u8(); }
		G.q0[G.nq] = b0; G.q2[G.nq] = b2; G.qe[G.nq] = e; G.ql[G.nq] = (unsigned)rv; G.nq++;
	} else if (rv == DIAG_ERR_TIMEOUT && G.nq > 0) {
		spec_step();
	} else { g_next = MUST_FAIL; g_reterr = DIAG_ERR_TIMEOUT; }
	return rv;
}
static void one(void) {
	 ms_n = 0; ms_nlive = 0; g_c = 0; g_busy = 0; g_ret = 0; g_reterr = 0;
	G.reads = 0; G.sends = 0; G.nq = 0;
	g_conn.diag_msg = NULL; g_dp.rxoffset = 0;
	g_link.l2_dl0d = &g_dev;
	g_link.l1flags = DIAG_L1_DOESL2FRAME | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_NOHDRS;
	g_conn.diag_link = &g_link;
	g_conn.diag_l2_proto_data = &g_dp;
	g_conn.diag_l2_p2min = 25; g_conn.diag_l2_p2max = vp_u16(); g_conn.diag_l2_p1max = vp_u16();
	vp_oom = false;
	g_next = MUST_SEND;
	int err = vp_int();
	struct diag_msg *r = diag_l2_proto_iso14230.diag_l2_proto_request(&g_conn, &g_req, &err);
	VP_COVER("positive after pending", r != NULL && err == 0 && g_ret == 1);
	VP_COVER("negative", r != NULL && err == DIAG_ERR_ECUSAIDNO);
	VP_COVER("resent", G.sends == 2 && r != NULL);
	if (r != NULL) {
		ENSURES("a message is returned exactly when a final response was received", g_next == MUST_RETURN);
		ENSURES("the response returned is the first final one", r->len == G.ql[g_ret] && r->data[0] == G.q0[g_ret] && IMPLIES(r->len >= 3, r->data[2] == G.q2[g_ret]));
		ENSURES("a positive response carries no error, another negative response is reported as refused", err == g_reterr);
		ENSURES("the response belongs to the caller alone", g_conn.diag_msg == NULL);
		diag_freemsg(r);
	} else {
		ENSURES("no message only on failure", g_next == MUST_FAIL);
		ENSURES("the failure is reported", err < 0 && IMPLIES(g_reterr != DIAG_ERR_TIMEOUT, err == g_reterr));
	}
	ENSURES("nothing is left queued, nothing leaks", g_conn.diag_msg == NULL && ms_nlive == 0);
}

void harness(void) {
	unsigned np = sizeof(prefix) - 1, total = 1;
	for (unsigned i = 0; i < DEPTH; i++) { total *= NEV; }
	for (unsigned c = 0; c < total; c++) {
		unsigned x = c;
		for (unsigned i = 0; i < KREADS; i++) {
			if (i < np) { script[i] = prefix[i]; }
			else if (i < np + DEPTH) { script[i] = evs[x % NEV]; x /= NEV; }
			else { script[i] = 'T'; }
		}
		for (g_failsend = 0; g_failsend < FS; g_failsend++) { one(); }
	}
}
