/* C11: Volvo D2 over K-line: send, receive, request, session. Real code: diag_l2_d2.c */
#ifndef SLOTCAP
#define SLOTCAP 64
#endif
#ifndef NSLOTS
#define NSLOTS 8
#endif
#include "stubs_l1.h"
#include "msgstub.h"
static void *vp_bytecopy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) { ((uint8_t *)d)[i] = ((const uint8_t *)s)[i]; } return d; }
#ifndef SYMLEN
#define memcpy vp_bytecopy
#endif
static void obj_free(void *p);
#undef free
#define free(p) obj_free(p)
#include "diag_l2_d2.c"
#undef memcpy
#define OBJ_T struct diag_l2_d2
#include "objstub.h"
#ifndef EVENTS
#define EVENTS ""
#endif
#ifndef LEN
#define LEN 1
#endif
#ifndef FAILAT
#define FAILAT 0
#endif
#ifndef INIT
#define INIT DIAG_L2_TYPE_SLOWINIT
#endif
#ifndef L1FLAGS
#define L1FLAGS (DIAG_L1_DOESFULLINIT | DIAG_L1_DOESL2CKSUM)
#endif
static struct diag_l0_device g_dev;
static struct diag_l2_link g_link;
static struct diag_l2_conn g_conn;
static struct diag_l2_d2 g_dp;
static struct diag_msg g_msg;
static uint8_t g_data[64], g_raw[68];
static unsigned g_timeout, g_rawlen, g_k;
static struct { unsigned sends, l2sends, reads, cbs, inits, speeds, wms; int rv, l2rv, initrv, setrv, wmrv, hard; bool flushed; bool over; uint8_t dest, src; } S;
static struct { uint8_t tgt, src, kb1, kb2; unsigned speed; uint8_t sid; } W;
static const char events[] = EVENTS;
#define NEV (sizeof(events) - 1)
/* events: Ln a response of n arbitrary payload bytes (not "busy"): a=1 b=2 c=3 d=4 z=62 ; p busy; s frame without payload; T time-out; E error; m no memory for the message; M none for its copy */
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned tout) {
	VP_CHECK("diag_l1_recv.pre", d == &g_dev && n >= 1 && VP_W_OK(p, n));
	VP_CHECK("a whole frame fits, waiting at least the time-out", n >= 66 && tout >= g_timeout && tout <= g_timeout + 1000);
	VP_CHECK("no read after the final response or an error", !S.over);
	VP_CHECK("unit bound: events", S.reads < NEV);
	char e = events[S.reads < NEV ? S.reads : 0];
	S.reads++;
	S.over = e != 'p';
	if (e == 'E') { S.hard = DIAG_ERR_GENERAL; return S.hard; }
	if (e == 'T') { S.hard = DIAG_ERR_TIMEOUT; return S.hard; }
	VP_BYTES(g_raw, 68);
	unsigned len = e == 'a' || e == 'm' || e == 'M' ? 1 : e == 'b' ? 2 : e == 'c' || e == 'p' ? 3 : e == 'd' ? 4 : e == 'z' ? 62 : 0;
	g_rawlen = len + 4;
	if (e == 't') { g_rawlen = 1; }
	if (e == 'p') { g_raw[3] = 0x7e; g_raw[4] = W.sid; g_raw[5] = 0x23; }
	if (e == 'c') { REQUIRES(g_raw[3] != 0x7e || g_raw[4] != W.sid || g_raw[5] != 0x23); }
	if (e == 'm') { ms_failat = ms_n + 1; }
	if (e == 'M') { ms_failat = ms_n + 2; }
	for (unsigned i = 0; i < g_rawlen; i++) { ((uint8_t *)p)[i] = g_raw[i]; }
	return (int)g_rawlen;
}
int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) {
	const uint8_t *d = v;
	S.sends++; S.rv = vp_okerr();
	VP_CHECK("sent to the link's device, after P3", dev == &g_dev && g_slept >= g_conn.diag_l2_p3min && p4 == g_conn.diag_l2_p4min);
	VP_CHECK("frame = header and payload, the interface adds the checksum", len == g_msg.len + 3 && VP_R_OK(v, len));
	VP_CHECK("format byte counts payload and checksum", d[0] == 0x80 + g_msg.len + 1);
	VP_CHECK("addresses: the message's, else the session's", d[1] == (S.dest ? S.dest : g_dp.dstaddr) && d[2] == (S.src ? S.src : g_dp.srcaddr));
	VP_CHECK("payload unchanged", IMPLIES(g_k < g_msg.len, d[3 + g_k] == g_msg.data[g_k]));
	return S.rv;
}
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) {
	VP_CHECK("sent on this connection before any read", c == &g_conn && S.reads == 0);
	if (m != &g_msg) { VP_CHECK("one byte to the session's addresses", m->len == 1 && m->data[0] == W.sid && m->dest == 0 && m->src == 0); }
	S.l2sends++;
	return S.l2rv;
}
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) {
	VP_CHECK("ioctl on this connection", c == &g_conn);
	if (cmd == DIAG_IOCTL_SETSPEED) {
		struct diag_serial_settings *s = d;
		VP_CHECK("speed set first: the requested one or 10400, 8N1", S.inits == 0 && S.speeds == 0 && s->speed == (W.speed ? W.speed : 10400) && s->databits == diag_databits_8 && s->stopbits == diag_stopbits_1 && s->parflag == diag_par_n);
		S.speeds++;
		return S.setrv;
	}
	if (cmd == DIAG_IOCTL_IFLUSH) { S.flushed = true; return vp_okerr(); }
	if (cmd == DIAG_IOCTL_SETWM) {
		struct diag_msg *w = d;
		VP_CHECK("keep-alive message of the session installed before the wake-up", S.inits == 0 && S.wms == 0 && w->len == 4 && VP_R_OK(w->data, 4) && w->data[0] == 0x82 && w->data[1] == W.tgt && w->data[2] == W.src && w->data[3] == 0xA1);
		S.wms++;
		return S.wmrv;
	}
	if (cmd == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *in = d;
		uint8_t a = W.tgt & 0x7f, par = 0;
		for (int i = 0; i < 7; i++) { par ^= (a >> i) & 1; }
		VP_CHECK("5-baud wake-up of the requested address with odd parity, after an idle bus and with stale input flushed", S.inits == 0 && S.speeds == 1 && S.wms == 1 && S.flushed && g_slept >= 300 && in->type == DIAG_L1_INITBUS_5BAUD && in->addr == (uint8_t)(a | (par ? 0 : 0x80)) && in->testerid == W.src);
		S.inits++;
		in->kb1 = W.kb1; in->kb2 = W.kb2;
		return S.initrv;
	}
	return vp_okerr();
}
static void setup(void) {
	g_link.l2_dl0d = &g_dev; g_link.l1flags = L1FLAGS;
	g_conn.diag_link = &g_link; g_conn.diag_l2_proto_data = &g_dp; g_conn.diag_l2_p3min = vp_u16(); g_conn.diag_l2_p4min = vp_u16();
	g_dp.srcaddr = vp_u8(); g_dp.dstaddr = vp_u8();
	diag_l2_debug = 0;
	g_k = vp_uint();
	S.l2rv = vp_okerr();
	if (FAILAT == 1) { S.l2rv = vp_err(); } else if (NEV) { S.l2rv = 0; }
	VP_BYTES(g_data, 64);
	g_msg.data = g_msg.idata = g_data; g_msg.len = 2;
	W.sid = g_data[0];
}
void h_send(void) {
	setup();
#ifdef SYMLEN
	g_msg.len = vp_uint();
	REQUIRES(g_msg.len <= DIAG_MAX_MSGLEN);
	bool ok = g_msg.len >= 1 && g_msg.len <= 62;
	if (ok) { g_msg.data = g_msg.idata = g_data + (64 - g_msg.len); }
#else
	g_msg.len = LEN; g_msg.data = g_msg.idata = g_data + (64 - LEN);
	bool ok = LEN >= 1 && LEN <= 62;
#endif
	S.dest = g_msg.dest = vp_u8(); S.src = g_msg.src = vp_u8();
	int rv = diag_l2_proto_d2.diag_l2_proto_send(&g_conn, &g_msg);
	if (ok) { ENSURES("exactly one frame is sent, its result reported", S.sends == 1 && rv == S.rv); }
	else { ENSURES("a message that the length field cannot describe is refused, nothing is sent", rv == DIAG_ERR_BADLEN && S.sends == 0); }
	VP_COVER("sent", ok);
}
static void check_msg(struct diag_msg *m) {
	ENSURES("one message of the payload of the last frame", m->next == NULL && g_rawlen >= 5 && m->len == g_rawlen - 4 && VP_R_OK(m->data, m->len));
	ENSURES("payload bytes", IMPLIES(g_k < g_rawlen - 4, m->data[g_k] == g_raw[3 + g_k]));
	ENSURES("addresses of the frame", m->src == g_raw[2] && m->dest == g_raw[1]);
	ENSURES("framed", m->fmt & DIAG_FMT_FRAMED);
}
static void cb(void *h, struct diag_msg *m) { VP_CHECK("callback handle", h == (void *)&S); S.cbs++; check_msg(m); }
void h_recv(void) {
	setup();
	g_timeout = vp_uint(); REQUIRES(g_timeout <= 100000);
	int rv = diag_l2_proto_d2.diag_l2_proto_recv(&g_conn, g_timeout, cb, &S);
	ENSURES("one read", S.reads == 1);
	if (S.hard) { ENSURES("L1 errors are reported", rv == S.hard && S.cbs == 0); }
	else if (g_rawlen < 5) { ENSURES("a frame without payload is an error", rv < 0 && S.cbs == 0); }
	else if (ms_failed) { ENSURES("no memory is reported", rv == DIAG_ERR_NOMEM && S.cbs == 0); }
	else { ENSURES("delivered once", rv == 0 && S.cbs == 1); }
	ENSURES("nothing leaks", ms_nlive == 0);
}
void h_request(void) {
	int err = 77;
	setup();
	g_timeout = 1000;
	struct diag_msg *r = diag_l2_proto_d2.diag_l2_proto_request(&g_conn, &g_msg, &err);
	ENSURES("the request is sent once", S.l2sends == 1);
	if (S.l2rv < 0) { ENSURES("a failed send is reported without reading", r == NULL && err == S.l2rv && S.reads == 0); }
	else if (S.hard) { ENSURES("L1 errors are reported", r == NULL && err == S.hard); }
	else if (ms_failed || g_rawlen < 5) { ENSURES("a failure is reported", r == NULL && err < 0); }
	else { ENSURES("the final response is returned", r != NULL && err == 0 && S.over); check_msg(r); diag_freemsg(r); }
	ENSURES("nothing leaks", ms_nlive == 0);
}
void h_timeout(void) {
	setup();
	g_timeout = 100; W.sid = 0xA1;
	diag_l2_proto_d2.diag_l2_proto_timeout(&g_conn);
	ENSURES("one tester-present; its response is read when it was sent", S.l2sends == 1 && IFF(S.l2rv >= 0, S.reads > 0) && ms_nlive == 0 && S.sends == 0);
}
void h_stop(void) {
	struct diag_l2_d2 *dp;
	setup();
	if (diag_calloc(&dp, 1)) { return; }
	g_conn.diag_l2_proto_data = dp;
	g_timeout = 100; W.sid = 0xA0;
	int rv = diag_l2_proto_d2.diag_l2_proto_stopcomms(&g_conn);
	ENSURES("one stop request; its response is read when it was sent", rv == 0 && S.l2sends == 1 && IFF(S.l2rv >= 0, S.reads > 0) && ms_nlive == 0 && S.sends == 0);
	bool fail = S.l2rv < 0 || S.hard || ms_failed || g_rawlen < 5;
	ENSURES("without an answer the session is left to expire", IMPLIES(fail, g_slept >= 5000));
	ENSURES("session state released", !obj_live && g_conn.diag_l2_proto_data == NULL);
}
/* FAILAT: 1 speed, 2 SETWM, 3 wake-up, 4 no memory */
void h_start(void) {
	setup();
	g_conn.diag_l2_proto_data = NULL;
	W.tgt = vp_u8(); W.src = vp_u8(); W.speed = vp_uint(); W.kb1 = vp_u8(); W.kb2 = vp_u8();
	S.setrv = FAILAT == 1 ? vp_err() : 0; S.wmrv = FAILAT == 2 ? vp_err() : 0; S.initrv = FAILAT == 3 ? vp_err() : 0;
	vp_oom = FAILAT == 4;
	int rv = diag_l2_proto_d2.diag_l2_proto_startcomms(&g_conn, INIT, W.speed, W.tgt, W.src);
	struct diag_l2_d2 *dp = g_conn.diag_l2_proto_data;
	bool ok = false, able = (L1FLAGS & DIAG_L1_DOESFULLINIT) && (L1FLAGS & DIAG_L1_DOESL2CKSUM);
	bool nokb = W.kb1 == 0 && W.kb2 == 0, kb = nokb || (W.kb1 == 0xD3 && W.kb2 == 0xB0);
	if (!able) { ENSURES("interface not capable", rv == DIAG_ERR_PROTO_NOTSUPP && S.inits == 0); }
	else if (INIT != DIAG_L2_TYPE_SLOWINIT) { ENSURES("only the slow initialisation", rv == DIAG_ERR_INIT_NOTSUPP && S.inits == 0); }
	else if (FAILAT == 4) { ENSURES("no memory", IMPLIES(!obj_live, rv == DIAG_ERR_NOMEM && S.inits == 0)); ok = obj_live; REQUIRES(!obj_live); }
	else if (FAILAT == 1) { ENSURES("speed failure", rv == S.setrv && S.inits == 0); }
	else if (FAILAT == 2) { ENSURES("keep-alive message failure", rv == S.wmrv && S.inits == 0); }
	else if (FAILAT == 3) { ENSURES("wake-up failure", rv == S.initrv); }
	else { ok = kb; ENSURES("established exactly with the D2 key bytes", rv == (kb ? 0 : DIAG_ERR_WRONGKB)); VP_COVER("ok", kb); VP_COVER("wrong", !kb); }
	ENSURES("session data exist exactly when the session was started", IFF(rv == 0, ok) && IFF(ok, obj_live) && IFF(ok, dp == &obj_store) && IMPLIES(!ok, dp == NULL));
	if (ok) { ENSURES("session addresses and key bytes", dp->srcaddr == W.src && dp->dstaddr == W.tgt && g_conn.diag_l2_kb1 == 0xD3 && g_conn.diag_l2_kb2 == 0xB0); }
	ENSURES("nothing is sent, nothing leaks", S.sends == 0 && S.l2sends == 0 && ms_nlive == 0);
}
