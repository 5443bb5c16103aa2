/* C07: ISO9141-2 send, receive, request, session start. Real code: diag_l2_iso9141.c */
#ifndef SLOTCAP
#define SLOTCAP 16
#endif
#include "stubs_l1.h"
#include "msgstub.h"
static uint8_t sp_sum(const uint8_t *p, unsigned n) { uint8_t s = 0; for (unsigned i = 0; i < n; i++) { s += p[i]; } return s; }
/* contract of diag_cks1 (proved in C02) */
uint8_t diag_cks1(const uint8_t *p, unsigned n) { VP_CHECK("diag_cks1.pre", n <= 16 && (n == 0 || VP_R_OK(p, n))); return sp_sum(p, n); }
static void *vp_bytecopy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) { ((uint8_t *)d)[i] = ((const uint8_t *)s)[i]; } return d; }
#define memcpy vp_bytecopy
static void obj_free(void *p);
#undef free
#define free(p) obj_free(p)
#include "diag_l2_iso9141.c"
#undef memcpy
#define OBJ_T struct diag_l2_iso9141
#include "objstub.h"
#ifndef LEN
#define LEN 1
#endif
#ifndef L1FLAGS
#define L1FLAGS 0
#endif
#ifndef SCRIPT
#define SCRIPT 0
#endif
#ifndef FIXHDR
#define FIXHDR
#endif
#ifndef CAP
#define CAP 1
#endif
#ifndef P2MIN
#define P2MIN 25
#endif
#ifndef P1MAX
#define P1MAX 20
#endif
#ifndef TMO
#define TMO 400
#endif
static struct diag_l0_device g_dev;
static struct diag_l2_link g_link;
static struct diag_l2_conn g_conn;
static struct diag_l2_iso9141 g_dp;
static struct diag_msg g_msg;
static uint8_t g_data[8];
static unsigned g_timeout;
static struct { unsigned sends; int rv; } S;
static const int script[] = { SCRIPT };
#define NSCRIPT (sizeof(script) / sizeof(script[0]))
static uint8_t g_raw[CAP + 1], g_raw2[11];
static struct { unsigned reads, got, cbs, cur, st; int hard; bool done, again, init; } R = { .st = 1 };
static struct { unsigned off, len; } X[6];
static unsigned g_nx;
static struct { bool on; unsigned flushed, inits, speeds, sends, reads; int initrv, setrv, sendrv, rderr; uint8_t rx[3]; bool slept_w4, any; unsigned long slept_at; uint8_t tgt; unsigned speed; unsigned fail_at; } W;

#define FRAMEDL1 ((L1FLAGS & DIAG_L1_DOESL2FRAME) != 0)
static void frame_done(void) { X[g_nx].off = R.got - R.cur; X[g_nx].len = R.cur; g_nx++; R.cur = 0; R.st = 3; }
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned tout) {
	int rv;
	VP_CHECK("diag_l1_recv.pre", d == &g_dev && n >= 1 && VP_W_OK(p, n));
	if (W.on) {      /* handshake */
		VP_CHECK("handshake bytes are read one at a time, with a time-out, after the wake-up", n == 1 && tout >= 1 && W.inits == 1 && W.initrv == 0);
		VP_CHECK("unit bound: three handshake bytes", W.reads < 3);
		if (W.reads == 2) { VP_CHECK("the complement of the address is awaited after key byte 2 was acknowledged", W.sends == 1); }
		if (++W.reads == W.fail_at) { return W.rderr; }
		*(uint8_t *)p = W.rx[W.reads - 1];
		return 1;
	}
	if (R.again) { R.reads++; return DIAG_ERR_TIMEOUT; }
	VP_CHECK("no read after the end of the responses or an error", !R.done);
	VP_CHECK("unit bound: script long enough", R.reads < NSCRIPT);
	rv = script[R.reads < NSCRIPT ? R.reads : NSCRIPT - 1];
	VP_CHECK("room for the bytes of a complete frame", n == MAXLEN_ISO9141 - R.cur);
	if (R.st == 1) { VP_CHECK("first byte: the caller's time-out (longer on framing interfaces)", FRAMEDL1 ? tout >= g_timeout && tout >= SMART_TIMEOUT : tout == g_timeout); }
	if (R.st == 2) { VP_CHECK("inside a frame: at least the inter-byte time, less than the gap between frames", tout >= g_conn.diag_l2_p1max && (tout == g_conn.diag_l2_p1max || tout < g_conn.diag_l2_p2min)); }
	if (R.st == 3) { VP_CHECK("more frames are awaited for the full response window", FRAMEDL1 ? tout >= g_conn.diag_l2_p3min : tout == g_conn.diag_l2_p3min); }
	R.reads++;
	if (rv > 0) {
		VP_CHECK("unit bound: the read fits", (size_t)rv <= n && VP_W_OK(p, (size_t)rv));
		for (int i = 0; i < rv; i++) { ((uint8_t *)p)[i] = g_raw[R.got + (unsigned)i]; }
		R.got += (unsigned)rv; R.cur += (unsigned)rv; R.st = 2;
		if (FRAMEDL1 || R.cur == MAXLEN_ISO9141) { frame_done(); }
		return rv;
	}
	if (rv < 0) { R.done = true; R.hard = rv; return rv; }
	if (R.st == 2) { frame_done(); }
	else { R.done = true; }
	return DIAG_ERR_TIMEOUT;
}
void diag_l2_addmsg(struct diag_l2_conn *c, struct diag_msg *m) {
	VP_CHECK("addmsg.pre", c == &g_conn && m != NULL);
	if (c->diag_msg == NULL) { c->diag_msg = m; }
	else { struct diag_msg *l = c->diag_msg; for (int i = 0; i < 5 && l->next != NULL; i++) { l = l->next; } l->next = m; }
}
static int g_sendrv; static unsigned g_l2sends;
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) { VP_CHECK("the caller's request is sent on this connection, before any read", c == &g_conn && m == &g_msg && R.reads == 0 && g_l2sends == 0); g_l2sends++; return g_sendrv; }
int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) {
	const uint8_t *d = v;
	if (W.on) {
		VP_CHECK("key byte 2 is acknowledged by its complement, once, not before W4", len == 1 && d[0] == (uint8_t)~W.rx[1] && W.reads == 2 && W.sends == 0 && g_slept >= W.slept_at + 25 && !(L1FLAGS & DIAG_L1_DOESSLOWINIT));
		W.sends++;
		return W.sendrv;
	}
	bool raw = (g_link.l1flags & DIAG_L1_DATAONLY) != 0;
	bool ck = !raw && !(g_link.l1flags & DIAG_L1_DOESL2CKSUM);
	unsigned h = raw ? 0 : 3;
	S.sends++; S.rv = vp_okerr();
	VP_CHECK("sent to the link's device", dev == &g_dev);
	VP_CHECK("the bus has been idle for P3", g_slept >= g_conn.diag_l2_p3min);
	VP_CHECK("diag_l1_send.pre: readable frame", len >= 1 && VP_R_OK(v, len));
	VP_CHECK("frame = header + payload + checksum", len == h + LEN + (ck ? 1 : 0));
	VP_CHECK("inter-byte time of the session", p4 == g_conn.diag_l2_p4min);
	if (!raw) { VP_CHECK("header 68 6A and the session's source", d[0] == 0x68 && d[1] == 0x6A && d[2] == g_dp.srcaddr); }
	for (unsigned k = 0; k < LEN; k++) { VP_CHECK("payload unchanged", d[h + k] == g_msg.data[k]); }
	if (ck) { VP_CHECK("checksum of header and payload", d[h + LEN] == sp_sum(d, h + LEN)); }
	return S.rv;
}
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) {
	VP_CHECK("ioctl on this connection", c == &g_conn);
	if (cmd == DIAG_IOCTL_IFLUSH) { W.flushed++; return vp_okerr(); }
	if (cmd == DIAG_IOCTL_SETSPEED) {
		struct diag_serial_settings *s = d;
		VP_CHECK("speed set first: the requested one or 10400, 8N1", W.inits == 0 && W.speeds == 0 && s->speed == (W.speed ? W.speed : 10400) && s->databits == diag_databits_8 && s->stopbits == diag_stopbits_1 && s->parflag == diag_par_n);
		W.speeds++;
		return W.setrv;
	}
	if (cmd == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *in = d;
		VP_CHECK("5-baud wake-up of the requested address, after an idle bus and with stale input flushed", W.inits == 0 && W.speeds == 1 && W.flushed >= 1 && g_slept >= 300 && in->type == DIAG_L1_INITBUS_5BAUD && in->addr == W.tgt);
		W.inits++;
		return W.initrv;
	}
	return vp_okerr();
}
void h_send(void) {
	g_link.l2_dl0d = &g_dev; g_link.l1flags = L1FLAGS;
	g_conn.diag_link = &g_link; g_conn.diag_l2_proto_data = &g_dp; g_conn.diag_l2_p3min = vp_u16(); g_conn.diag_l2_p4min = vp_u16();
	g_dp.srcaddr = vp_u8();
	VP_BYTES(g_data, 8);
	g_msg.len = LEN;
#ifdef TOOLONG
	g_msg.len = vp_uint(); REQUIRES(g_msg.len > 7 && g_msg.len <= DIAG_MAX_MSGLEN);
#endif
	g_msg.data = g_msg.idata = g_data + (8 - LEN);
	diag_l2_debug = 0;
	int rv = diag_l2_proto_iso9141.diag_l2_proto_send(&g_conn, &g_msg);
#ifdef TOOLONG
	ENSURES("a message of more than 7 bytes is refused, nothing is sent", rv == DIAG_ERR_BADLEN && S.sends == 0);
#else
	ENSURES("exactly one frame is sent, its result reported", S.sends == 1 && rv == S.rv);
#endif
}
/* what a received frame must look like */
static int frame_ok(unsigned i) {
	unsigned cl = (L1FLAGS & DIAG_L1_STRIPSL2CKSUM) ? 0 : 1, hl = (L1FLAGS & DIAG_L1_NOHDRS) ? 0 : 3;
	if (!FRAMEDL1 && hl == 0) { return 0; }
	if (X[i].len <= hl + cl) { return 0; }
	return hl == 0 || (g_raw[X[i].off] == 0x48 && g_raw[X[i].off + 1] == 0x6B);
}
static bool all_ok(void) { bool ok = true; for (unsigned i = 0; i < g_nx; i++) { ok = ok && frame_ok(i); } return ok; }
static void check_list(struct diag_msg *m) {
	unsigned hl = (L1FLAGS & DIAG_L1_NOHDRS) ? 0 : 3, cl = (L1FLAGS & DIAG_L1_STRIPSL2CKSUM) ? 0 : 1;
	for (unsigned i = 0; i < g_nx; i++) {
		const uint8_t *f = &g_raw[X[i].off];
		ENSURES("every frame is delivered, in order", m != NULL);
		ENSURES("delivered frames are well-formed", frame_ok(i));
		ENSURES("payload length = frame - header - checksum", m->len == X[i].len - hl - cl);
		ENSURES("payload storage", VP_R_OK(m->data, m->len));
		for (unsigned k = 0; k < X[i].len - hl - cl; k++) { ENSURES("payload bytes", m->data[k] == f[hl + k]); }
		if (hl) { ENSURES("source of the frame, addressed to the tester", m->src == f[2] && m->dest == 0xF1); }
		bool bad = cl && sp_sum(f, X[i].len - 1) != f[X[i].len - 1];
		ENSURES("checksum handled", m->fmt & DIAG_FMT_CKSUMMED);
		ENSURES("marked bad exactly when the checksum is wrong", IFF(m->fmt & DIAG_FMT_BADCS, bad));
		ENSURES("framed when the checksum fits", IMPLIES(!bad, m->fmt & DIAG_FMT_FRAMED));
		VP_COVER("bad checksum", bad); VP_COVER("good checksum", !bad && cl);
		m = m->next;
	}
	ENSURES("nothing else is delivered", m == NULL);
}
/* every content: 1..11 bytes */
void h_decode(void) {
	VP_BYTES(g_raw2, 11);
	unsigned len = vp_uint(), over = vp_uint();
	REQUIRES(len >= 1 && len <= 11 && (over == 3 || over == 4));
	uint8_t *d = g_raw2 + (11 - len), h = 0, s = 0, t = 0; int dl = -1;
	int rv = dl2p_iso9141_decode(d, (int)len, (int)over, &h, &dl, &s, &t);
	bool good = len > over && d[0] == 0x48 && d[1] == 0x6B;
	ENSURES("accepted exactly when the header is an ECU's and there is data", IFF(rv >= 0, good));
	if (good) { ENSURES("decoded", rv == (int)len && h == 3 && dl == (int)(len - over) && s == d[2] && t == 0xF1); }
	VP_COVER("good", good); VP_COVER("bad", !good);
}
static void cb(void *h, struct diag_msg *m) { VP_CHECK("callback handle", h == (void *)&R); VP_CHECK("nothing is delivered afterwards", !R.again); R.cbs++; check_list(m); }
static void setup(void) {
	g_link.l2_dl0d = &g_dev; g_link.l1flags = L1FLAGS;
	g_conn.diag_link = &g_link; g_conn.diag_l2_proto_data = &g_dp;
	g_conn.diag_l2_p1max = P1MAX; g_conn.diag_l2_p2min = P2MIN; g_conn.diag_l2_p2max = 50; g_conn.diag_l2_p3min = 55;
	VP_BYTES(g_raw, CAP);
	FIXHDR
	g_timeout = TMO;
	diag_l2_debug = 0;
#ifdef OOM
	ms_failat = OOM;
#endif
#ifdef QUEUED
	g_conn.diag_msg = diag_allocmsg(2);
#endif
}
/* whatever happened, nothing of it is delivered by a later receive */
static void again(void) {
	R.again = true; ms_failat = 0;
	int rv = diag_l2_proto_iso9141.diag_l2_proto_recv(&g_conn, g_timeout, cb, &R);
	ENSURES("a later receive without traffic times out", rv == DIAG_ERR_TIMEOUT);
	ENSURES("nothing stays queued, nothing leaks", g_conn.diag_msg == NULL && ms_nlive == 0);
}
void h_recv(void) {
	setup();
	int rv = diag_l2_proto_iso9141.diag_l2_proto_recv(&g_conn, g_timeout, cb, &R);
	if (ms_failed) { ENSURES("no memory is reported", rv == DIAG_ERR_NOMEM && R.cbs == 0); }
	else {
		ENSURES("receives until a time-out or an error", R.done);
		if (R.hard) { ENSURES("L1 errors are reported", rv == R.hard && R.cbs == 0); }
		else if (g_nx == 0) { ENSURES("nothing received is a time-out", rv == DIAG_ERR_TIMEOUT && R.cbs == 0); }
		else if (!all_ok()) { ENSURES("a malformed frame is an error, nothing is delivered", rv < 0 && R.cbs == 0); VP_COVER("malformed", true); }
		else { ENSURES("the messages are delivered once", rv == 0 && R.cbs == 1); VP_COVER("delivered", true); }
	}
	again();
}
void h_request(void) {
	int err = 77;
	setup();
	g_timeout = g_conn.diag_l2_p2max + RXTOFFSET;
	g_sendrv = vp_okerr();
	struct diag_msg *r = diag_l2_proto_iso9141.diag_l2_proto_request(&g_conn, &g_msg, &err);
	ENSURES("the request is sent", g_l2sends == 1);
	if (g_sendrv < 0) { ENSURES("a failed send is reported without reading", r == NULL && err == g_sendrv && R.reads == 0); }
	else if (ms_failed || R.hard || g_nx == 0 || !all_ok()) { ENSURES("a failure is reported, no response", r == NULL && err < 0 && err != 77); VP_COVER("failure", true); }
	else { ENSURES("the responses are returned", r != NULL); check_list(r); VP_COVER("response", true); }
	if (r != NULL) { ENSURES("they are the caller's alone", g_conn.diag_msg == NULL); diag_freemsg(r); }
	again();
}
#ifndef INIT
#define INIT DIAG_L2_TYPE_SLOWINIT
#endif
#ifndef FAILAT
#define FAILAT 0
#endif
/* FAILAT: 1 speed, 2 wake-up, 3 send, 4..6 reads 1..3, 7 no memory */
void h_start(void) {
	W.on = true;
	g_conn.diag_link = &g_link; g_link.l2_dl0d = &g_dev; g_link.l1flags = L1FLAGS;
	g_conn.diag_l2_p2min = vp_u16();
	uint8_t src = vp_u8(); W.tgt = vp_u8(); W.speed = vp_uint();
	VP_BYTES(W.rx, 3);
	W.setrv = FAILAT == 1 ? vp_err() : 0; W.initrv = FAILAT == 2 ? vp_err() : 0; W.sendrv = FAILAT == 3 ? vp_err() : 0; W.rderr = vp_err();
	W.fail_at = FAILAT >= 4 && FAILAT <= 6 ? FAILAT - 3 : 0;
	vp_oom = FAILAT == 7;
	W.slept_at = 300;
	diag_l2_debug = 0;
	int rv = diag_l2_proto_iso9141.diag_l2_proto_startcomms(&g_conn, INIT, W.speed, W.tgt, src);
	struct diag_l2_iso9141 *dp = g_conn.diag_l2_proto_data;
	bool slow = INIT == DIAG_L2_TYPE_SLOWINIT;
	bool kbok = (W.rx[0] == 0x08 || W.rx[0] == 0x94) && W.rx[1] == W.rx[0];
	bool full = (L1FLAGS & DIAG_L1_DOESFULLINIT) != 0, half = (L1FLAGS & DIAG_L1_DOESSLOWINIT) != 0;
	bool ok;
	if (FAILAT == 7 || FAILAT == 1) { ok = false; ENSURES("no bus traffic", W.inits == 0); }
	else if (INIT == DIAG_L2_TYPE_MONINIT) { ok = true; ENSURES("monitoring does not touch the bus", W.inits == 0 && W.reads == 0); }
	else if (!slow) { ok = false; ENSURES("unsupported initialisation", rv == DIAG_ERR_INIT_NOTSUPP && W.inits == 0); }
	else if (FAILAT == 2) { ok = false; ENSURES("wake-up failure reported", rv == W.initrv); }
	else if (full) { ok = true; }
	else if (FAILAT == 4 || FAILAT == 5 || !kbok) { ok = false; ENSURES("missing or wrong key bytes", rv == DIAG_ERR_WRONGKB && W.sends == 0); }
	else if (half) { ok = true; ENSURES("the interface did the rest", W.sends == 0 && W.reads == 2); }
	else if (FAILAT == 3) { ok = false; ENSURES("send failure reported", rv == W.sendrv); }
	else if (FAILAT == 6) { ok = false; ENSURES("missing complement of the address", rv == W.rderr); }
	else { ok = W.rx[2] == (uint8_t)~W.tgt; ENSURES("wrong complement of the address", ok || rv == DIAG_ERR_BADDATA); }
	ENSURES("established exactly after the complete handshake", IFF(rv == 0, ok) && rv <= 0);
	VP_COVER("established", ok); VP_COVER("refused", !ok);
	ENSURES("session data exist exactly when the session was started", IFF(ok, obj_live) && IFF(ok, dp == &obj_store) && IMPLIES(!ok, dp == NULL));
	if (ok) {
		ENSURES("session holds the caller's addresses", dp->srcaddr == src && dp->target == W.tgt && dp->rxoffset == 0);
		if (slow) {
			uint8_t kb = full ? 0x08 : W.rx[0];
			ENSURES("key bytes and response time of the ECU", g_conn.diag_l2_kb1 == kb && g_conn.diag_l2_kb2 == kb && g_conn.diag_l2_p2min == (kb == 0x94 ? 0 : 25));
		}
		rv = diag_l2_proto_iso9141.diag_l2_proto_stopcomms(&g_conn);
		ENSURES("stop releases the session state", rv == 0 && !obj_live && g_conn.diag_l2_proto_data == NULL);
	}
}
