/* C09: MB1 send, receive, request, session start. Real code: diag_l2_mb1.c */
#ifndef SLOTCAP
#define SLOTCAP 16
#endif
#include "stubs_l1.h"
#include "msgstub.h"
static void *vp_bytecopy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) { ((uint8_t *)d)[i] = ((const uint8_t *)s)[i]; } return d; }
#define memcpy vp_bytecopy
#include "diag_l2_mb1.c"
#undef memcpy
#include "stream.h"
#ifndef LEN
#define LEN 1
#endif
#ifndef TOTAL
#define TOTAL 5
#endif
static struct diag_l2_link g_link;
static struct diag_l2_conn g_conn;
static struct diag_msg g_msg;
static uint8_t g_data[256];
static unsigned g_timeout = 700;
static unsigned g_k;
static struct { unsigned sends, l2sends, cbs, inits, speeds; int rv, l2rv, initrv, setrv; bool flushed; } S;
static struct { bool on; uint8_t kb[2]; unsigned tgt, speed; int rderr; unsigned fail_at; } W;
static uint16_t sp_sum(const uint8_t *p, unsigned n) { uint16_t s = 0; for (unsigned i = 0; i < n; i++) { s += p[i]; } return s; }
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned tout) {
	if (W.on && R.reads < 2) {
		VP_CHECK("key bytes are read one at a time, after the wake-up", d == &g_dev && n == 1 && tout > 0 && S.inits == 1 && S.initrv == 0);
		if (++R.reads == W.fail_at) { return W.rderr; }
		*(uint8_t *)p = W.kb[R.reads - 1];
		return 1;
	}
	VP_CHECK("no read after an error or the end of the message", !R.failed && (W.on || R.got < TOTAL || TOTAL < 3));
	if (!W.on) { VP_CHECK("never reads beyond the message", R.got + n <= 3 || R.got + n <= TOTAL); }
	return stream_recv(d, p, n, tout);
}
int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) {
	const uint8_t *d = v;
	S.sends++; S.rv = vp_okerr();
	VP_CHECK("sent to the link's device, after P3", dev == &g_dev && g_slept >= g_conn.diag_l2_p3min && p4 == g_conn.diag_l2_p4min);
	VP_CHECK("frame = address, command, length, data, checksum", len == LEN + 4 && VP_R_OK(v, len));
	VP_CHECK("address of the session", d[0] == g_conn.diag_l2_destaddr);
	VP_CHECK("command", d[1] == g_msg.data[0]);
	VP_CHECK("total length", d[2] == LEN + 4);
	VP_CHECK("data unchanged", IMPLIES(g_k >= 1 && g_k < LEN, d[2 + g_k] == g_msg.data[g_k]));
	uint16_t s = sp_sum(d, LEN + 2);
	VP_CHECK("checksum, low byte first", d[LEN + 2] == (s & 0xff) && d[LEN + 3] == (s >> 8));
	return S.rv;
}
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) {
	VP_CHECK("sent on this connection before any read", c == &g_conn && (m == &g_msg || R.reads == 0) && R.reads == 0);
	if (m != &g_msg) { VP_CHECK("idle message", m->len == 2 && m->data[0] == 0x50 && m->data[1] == 0x01); }
	S.l2sends++;
	return S.l2rv;
}
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) {
	VP_CHECK("ioctl on this connection", c == &g_conn);
	if (cmd == DIAG_IOCTL_SETSPEED) {
		struct diag_serial_settings *s = d;
		VP_CHECK("speed set first: the requested one or 9600, 8N1", S.inits == 0 && S.speeds == 0 && s->speed == (W.speed ? W.speed : 9600) && s->databits == diag_databits_8 && s->stopbits == diag_stopbits_1 && s->parflag == diag_par_n);
		S.speeds++;
		return S.setrv;
	}
	if (cmd == DIAG_IOCTL_IFLUSH) { S.flushed = true; return vp_okerr(); }
	if (cmd == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *in = d;
		VP_CHECK("5-baud wake-up of the requested address, after an idle bus and with stale input flushed", S.inits == 0 && S.speeds == 1 && S.flushed && g_slept >= 300 && in->type == DIAG_L1_INITBUS_5BAUD && in->addr == W.tgt);
		S.inits++;
		return S.initrv;
	}
	return vp_okerr();
}
int diag_l2_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { return vp_okerr(); }
static void setup(void) {
	g_link.l2_dl0d = &g_dev;
	g_conn.diag_link = &g_link; g_conn.diag_l2_destaddr = vp_u8(); g_conn.diag_l2_p3min = vp_u16(); g_conn.diag_l2_p4min = vp_u16();
	diag_l2_debug = 0;
#ifdef SPARSE
	{ unsigned t = 0; for (int i = 0; i <= AVAIL; i++) { g_raw[i] = 0xff - (i == 3); if (i < TOTAL - 2) { t += i == 2 ? TOTAL : g_raw[i]; } }
	t ^= SPARSE;
	if (AVAIL == TOTAL) { g_raw[TOTAL - 2] = (uint8_t)t; g_raw[TOTAL - 1] = (uint8_t)(t >> 8); } }
#else
	VP_BYTES(g_raw, AVAIL + 1);
#endif
	if (AVAIL >= 3) { g_raw[2] = TOTAL; }
	g_k = vp_uint();
#ifdef OOM
	ms_failat = 1;
#endif
}
void h_send(void) {
	setup();
#ifdef SPARSE
	for (int i = 0; i < 256; i++) { g_data[i] = (uint8_t)(i * 37 + 11); }
	for (int i = 0; i < 3; i++) { g_data[256 - LEN + i] = vp_u8(); g_data[255 - i] = vp_u8(); }
#else
	VP_BYTES(g_data, 256);
#endif
	g_msg.len = LEN;
#ifdef TOOLONG
	g_msg.len = vp_uint(); REQUIRES(g_msg.len > 251 && g_msg.len <= DIAG_MAX_MSGLEN);
#endif
	g_msg.data = g_msg.idata = g_data + (256 - LEN);
	int rv = diag_l2_proto_mb1.diag_l2_proto_send(&g_conn, &g_msg);
#ifdef TOOLONG
	ENSURES("a message that the length byte cannot describe is refused, nothing is sent", rv == DIAG_ERR_BADLEN && S.sends == 0);
#else
	ENSURES("exactly one frame is sent, its result reported", S.sends == 1 && rv == S.rv);
#endif
}
static bool ck_ok(void) { uint16_t s = sp_sum(g_raw, TOTAL - 2); return g_raw[TOTAL - 2] == (s & 0xff) && g_raw[TOTAL - 1] == (s >> 8); }
#define COMPLETE (TOTAL >= 5 && AVAIL >= TOTAL)
static void check_msg(struct diag_msg *m) {
	ENSURES("only complete messages with the right checksum are delivered", COMPLETE && ck_ok());
	ENSURES("one message of command and data", m->next == NULL && m->len == TOTAL - 4 && VP_R_OK(m->data, m->len));
	ENSURES("command", m->data[0] == g_raw[1]);
	for (unsigned k = 1; k < TOTAL - 4; k++) { ENSURES("data bytes", m->data[k] == g_raw[2 + k]); }
	ENSURES("framed", m->fmt & DIAG_FMT_FRAMED);
}
static void cb(void *h, struct diag_msg *m) { VP_CHECK("callback handle", h == (void *)&R); S.cbs++; check_msg(m); }
void h_recv(void) {
	setup();
	int rv = diag_l2_proto_mb1.diag_l2_proto_recv(&g_conn, g_timeout, cb, &R);
	ENSURES("first byte: the caller's time-out", R.first_tout == g_timeout);
	if (!COMPLETE) { ENSURES("an incomplete or too short message is an error", rv < 0 && S.cbs == 0); if (AVAIL < 3 && R.hard) { ENSURES("L1 errors are reported", rv == R.hard); } }
	else if (ms_failed) { ENSURES("no memory is reported", rv == DIAG_ERR_NOMEM && S.cbs == 0); }
	else { ENSURES("delivered exactly when the checksum is right", IFF(rv == 0, ck_ok()) && rv <= 0 && S.cbs == (rv == 0)); VP_COVER("delivered", rv == 0); VP_COVER("bad checksum", rv != 0); }
	ENSURES("nothing leaks", ms_nlive == 0);
}
void h_request(void) {
	int err = 77;
	setup();
	S.l2rv = vp_okerr();
	struct diag_msg *r = diag_l2_proto_mb1.diag_l2_proto_request(&g_conn, &g_msg, &err);
	ENSURES("the request is sent once", S.l2sends == 1);
	if (S.l2rv < 0) { ENSURES("a failed send is reported without reading", r == NULL && err == S.l2rv && R.reads == 0); }
	else if (!COMPLETE || ms_failed) { ENSURES("a failure is reported", r == NULL && err < 0); }
	else { ENSURES("the response is returned exactly when its checksum is right", IFF(r != NULL, ck_ok()) && IMPLIES(r == NULL, err < 0)); }
	if (r != NULL) { check_msg(r); diag_freemsg(r); VP_COVER("response", true); }
	ENSURES("nothing leaks", ms_nlive == 0);
}
void h_timeout(void) {
	setup();
	S.l2rv = vp_okerr();
	diag_l2_proto_mb1.diag_l2_proto_timeout(&g_conn);
	ENSURES("one idle message; its response is read when it was sent", S.l2sends == 1 && IFF(S.l2rv >= 0, R.reads > 0) && ms_nlive == 0 && S.sends == 0);
}
#ifndef FAILAT
#define FAILAT 0
#endif
void h_start(void) {
	W.on = true;
	setup();
	W.tgt = vp_u8(); W.speed = vp_uint(); VP_BYTES(W.kb, 2); W.rderr = vp_err(); W.fail_at = FAILAT >= 3 ? FAILAT - 2 : 0;
	S.setrv = FAILAT == 1 ? vp_err() : 0; S.initrv = FAILAT == 2 ? vp_err() : 0;
	int rv = diag_l2_proto_mb1.diag_l2_proto_startcomms(&g_conn, vp_uint(), W.speed, W.tgt, vp_u8());
	bool kb = W.kb[0] == 0xC2 && W.kb[1] == 0xCD;
	if (FAILAT == 1) { ENSURES("speed failure", rv == S.setrv && S.inits == 0); }
	else if (FAILAT == 2) { ENSURES("wake-up failure", rv == S.initrv); }
	else if (FAILAT >= 3) { ENSURES("missing key byte", rv == W.rderr); }
	else { ENSURES("established exactly with the MB1 key bytes", rv == (kb ? 0 : DIAG_ERR_WRONGKB)); ENSURES("key bytes kept", g_conn.diag_l2_kb1 == W.kb[0] && g_conn.diag_l2_kb2 == W.kb[1]); VP_COVER("ok", kb); VP_COVER("wrong", !kb); }
	ENSURES("nothing is sent, nothing leaks", S.sends == 0 && S.l2sends == 0 && ms_nlive == 0);
	ENSURES("stop", diag_l2_proto_mb1.diag_l2_proto_stopcomms(&g_conn) == 0);
}
