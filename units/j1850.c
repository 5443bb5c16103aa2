/* C08: SAE J1850 send, receive, request. Real code: diag_l2_saej1850.c */
#ifndef SLOTCAP
#define SLOTCAP 16
#endif
#include "stubs_l1.h"
#include "msgstub.h"
#ifdef VP_SENDPROOF
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) { *pp = NULL; return DIAG_ERR_NOMEM; }
#endif
#ifndef VP_SENDPROOF
static void *vp_bytecopy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) { ((uint8_t *)d)[i] = ((const uint8_t *)s)[i]; } return d; }
#define memcpy vp_bytecopy
static void obj_free(void *p);
#undef free
#define free(p) obj_free(p)
#endif
#include "diag_l2_saej1850.c"
#undef memcpy
#ifndef VP_SENDPROOF
#define OBJ_T struct diag_l2_j1850
#include "objstub.h"
#endif
#ifndef LEN
#define LEN 0
#endif
#ifndef L1FLAGS
#define L1FLAGS DIAG_L1_DOESL2FRAME
#endif
#ifndef SCRIPT
#define SCRIPT 0
#endif
#ifndef CAP
#define CAP 1
#endif
static struct diag_l0_device g_dev;
static struct diag_l2_link g_link;
static struct diag_l2_conn g_conn;
static struct diag_l2_j1850 g_dp;
static struct diag_msg g_msg;
static uint8_t g_data[DIAG_MAX_MSGLEN];
static unsigned g_k, g_j;
static struct { unsigned sends; int rv; unsigned crcs; const uint8_t *p; int n; uint8_t val, wit; } S;
static uint8_t sp_crc(const uint8_t *p, unsigned n) {
	uint8_t r = 0xff;
	for (unsigned i = 0; i < n; i++) {
		r ^= p[i];
		for (int k = 0; k < 8; k++) { r = (r & 0x80) ? (uint8_t)((r << 1) ^ 0x1D) : (uint8_t)(r << 1); }
	}
	return (uint8_t)~r;
}
/* contract of the CRC function (proved in j1850_crc), for replacement at the call */
uint8_t crc_contract(uint8_t *p, int n) {
	VP_CHECK("crc.pre: readable bytes", n >= 0 && VP_R_OK(p, (size_t)n));
	S.crcs++; S.p = p; S.n = n; S.val = vp_u8();
	if (n >= 0 && g_j < (unsigned)n) { S.wit = p[g_j]; }
	return S.val;
}
/* ---- scripted L1 ---- */
static const int script[] = { SCRIPT };
#define NSCRIPT (sizeof(script) / sizeof(script[0]))
static uint8_t g_raw[CAP];
static unsigned g_timeout;
static struct { unsigned reads, got, off, cbs; int hard; bool done; unsigned long used; } R;
/* messages expected: each read delivers one complete frame */
static struct { unsigned off, len; } X[8];
static unsigned g_nx;
#ifdef VP_SENDPROOF
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned t) { return vp_err(); }
#else
static unsigned long long g_clk;       /* microseconds; never decreasing */
static unsigned g_adv;                 /* time each read takes, in ms */
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned tout) {
	int rv;
	VP_CHECK("reads the link's device", d == &g_dev);
	VP_CHECK("diag_l1_recv.pre", n >= 1 && VP_W_OK(p, n));
	VP_CHECK("no read after an error or a time-out", !R.done);
	VP_CHECK("the read is given what is left of the caller's time (plus the smart-interface allowance)", tout == g_timeout + SMART_TIMEOUT - R.used);
	VP_CHECK("unit bound: script long enough", R.reads < NSCRIPT);
	rv = script[R.reads < NSCRIPT ? R.reads : NSCRIPT - 1];
	if (rv == 0) { rv = DIAG_ERR_TIMEOUT; }
	VP_CHECK("room for the bytes", IMPLIES(rv > 0, (size_t)rv <= n));
	R.reads++;
	if (rv > 0) {
		for (int i = 0; i < rv; i++) { ((uint8_t *)p)[i] = g_raw[R.got + (unsigned)i]; }
		/* a read that, with what was held back before it, makes a frame long enough */
		R.got += (unsigned)rv;
		unsigned have = R.got - R.off;
		unsigned over = ((L1FLAGS & DIAG_L1_NOHDRS) ? 0 : 3) + ((L1FLAGS & DIAG_L1_STRIPSL2CKSUM) ? 0 : 1);
		if (have > over) { X[g_nx].off = R.off; X[g_nx].len = have; g_nx++; R.off = R.got; }
		g_clk += 1000ULL * g_adv; R.used += g_adv;
	} else if (rv == DIAG_ERR_TIMEOUT) { R.done = true; }
	else { R.done = true; R.hard = rv; }
	return rv;
}
#endif
#ifdef VP_SENDPROOF
unsigned long long diag_os_gethrt(void) { return 0; }
unsigned long long diag_os_hrtus(unsigned long long x) { return x; }
#else
unsigned long long diag_os_gethrt(void) { return g_clk; }
unsigned long long diag_os_hrtus(unsigned long long x) { return x; }
#endif
int diag_l2_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { return vp_okerr(); }
static unsigned g_flushes; static unsigned long g_slept_flush;
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) { VP_CHECK("flushes this connection's input", c == &g_conn && cmd == DIAG_IOCTL_IFLUSH); g_flushes++; return vp_okerr(); }
void diag_l2_addmsg(struct diag_l2_conn *c, struct diag_msg *m) {
	VP_CHECK("addmsg.pre", c == &g_conn);
	if (c->diag_msg == NULL) { c->diag_msg = m; }
	else { struct diag_msg *l = c->diag_msg; for (int i = 0; i < 4 && l->next != NULL; i++) { l = l->next; } l->next = m; }
}
static int g_sendrv; static unsigned g_l2sends;
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) { VP_CHECK("the caller's request is sent on this connection, before any read", c == &g_conn && m == &g_msg && R.reads == 0 && g_l2sends == 0); g_l2sends++; return g_sendrv; }

int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) {
	const uint8_t *d = v;
	bool raw = (g_link.l1flags & DIAG_L1_DATAONLY) != 0;
	bool crc = !raw && !(g_link.l1flags & DIAG_L1_DOESL2CKSUM);
	unsigned h = raw ? 0 : 3;
	S.sends++; S.rv = vp_okerr();
	VP_CHECK("sent to the link's device", dev == &g_dev);
	VP_CHECK("diag_l1_send.pre: readable frame", len >= 1 && VP_R_OK(v, len));
	VP_CHECK("frame = header + payload + CRC", len == h + g_msg.len + (crc ? 1 : 0));
	VP_CHECK("no inter-byte time", p4 == 0);
	if (!raw) {
		VP_CHECK("header: priority/type byte of the bus", d[0] == (g_link.l1proto == DIAG_L1_J1850_PWM ? 0x61 : 0x68));
		VP_CHECK("header: target and source of the session", d[1] == g_dp.dstaddr && d[2] == g_dp.srcaddr);
	}
	VP_CHECK("payload unchanged", IMPLIES(g_k < g_msg.len, d[h + g_k] == g_msg.data[g_k]));
	if (crc) {
#ifdef VP_SENDPROOF
		VP_CHECK("the CRC covers exactly the bytes before it", S.crcs == 1 && S.n == (int)(h + g_msg.len) && S.p == d);
		VP_CHECK("the CRC is appended", d[h + g_msg.len] == S.val);
		VP_CHECK("the CRC is computed over the final bytes", IMPLIES(g_j < h + g_msg.len, S.wit == d[g_j]));
#else
		VP_CHECK("the CRC of header and payload is appended", d[h + LEN] == sp_crc(d, h + LEN));
#endif
	}
	return S.rv;
}
void h_send(void) {
	g_link.l2_dl0d = &g_dev; g_link.l1flags = vp_uint(); g_link.l1proto = vp_int();
	g_conn.diag_link = &g_link; g_conn.diag_l2_proto_data = &g_dp;
	g_dp.srcaddr = vp_u8(); g_dp.dstaddr = vp_u8();
	VP_BYTES(g_data, DIAG_MAX_MSGLEN);
	g_msg.len = vp_uint(); g_k = vp_uint(); g_j = vp_uint();
#ifndef VP_SENDPROOF
	g_msg.len = LEN;
	g_link.l1flags = L1FLAGS;
#endif
	REQUIRES(g_msg.len >= 1 && g_msg.len <= DIAG_MAX_MSGLEN);
	g_msg.data = g_msg.idata = g_data + (DIAG_MAX_MSGLEN - g_msg.len);
	diag_l2_debug = 0;
	int rv = diag_l2_proto_saej1850.diag_l2_proto_send(&g_conn, &g_msg);
	if (g_msg.len > MAXRBUF - 5) { ENSURES("a message too long for a frame buffer is refused, nothing is sent", rv == DIAG_ERR_BADLEN && S.sends == 0); }
	else { ENSURES("exactly one frame is sent, its result reported", S.sends == 1 && rv == S.rv); }
	VP_COVER("sent", S.sends == 1); VP_COVER("refused", rv == DIAG_ERR_BADLEN);
}
#ifndef VP_SENDPROOF
static bool g_oom;
static void check_list(struct diag_msg *m) {
	unsigned hl = (L1FLAGS & DIAG_L1_NOHDRS) ? 0 : 3, cl = (L1FLAGS & DIAG_L1_STRIPSL2CKSUM) ? 0 : 1;
	for (unsigned i = 0; i < g_nx; i++) {
		ENSURES("every frame is delivered, in order", m != NULL);
		ENSURES("payload length = frame - header - CRC", m->len == X[i].len - hl - cl);
		ENSURES("payload storage", VP_R_OK(m->data, m->len));
		for (unsigned k = 0; k < X[i].len - hl - cl; k++) { ENSURES("payload bytes", m->data[k] == g_raw[X[i].off + hl + k]); }
		ENSURES("addresses", hl == 0 ? (m->dest == 0 && m->src == 0) : (m->dest == g_raw[X[i].off + 1] && m->src == g_raw[X[i].off + 2]));
		ENSURES("framed and CRC checked", (m->fmt & DIAG_FMT_FRAMED) && (m->fmt & DIAG_FMT_CKSUMMED));
		bool bad = cl && sp_crc(&g_raw[X[i].off], X[i].len - 1) != g_raw[X[i].off + X[i].len - 1];
		ENSURES("marked bad exactly when the CRC is wrong", IFF(m->fmt & DIAG_FMT_BADCS, bad));
		VP_COVER("bad CRC", bad); VP_COVER("good CRC", !bad && cl);
		m = m->next;
	}
	ENSURES("nothing else is delivered", m == NULL);
}
static void cb(void *h, struct diag_msg *m) { VP_CHECK("callback handle", h == (void *)&R); R.cbs++; check_list(m); }
static void setup(void) {
	g_link.l2_dl0d = &g_dev; g_link.l1flags = L1FLAGS;
	g_conn.diag_link = &g_link; g_conn.diag_l2_proto_data = &g_dp;
	VP_BYTES(g_raw, CAP);
	g_dp.rxoffset = 0;
	g_timeout = 1000; g_adv = 10; g_clk = 5000000;
#ifdef ADV
	g_adv = ADV;
#endif
	diag_l2_debug = 0;
#ifdef OOM
	vp_oom = true;
#endif
#ifdef QUEUED
	/* a message left from before: never delivered as a new response */
	g_conn.diag_msg = diag_allocmsg(2);
#endif
}
static bool over(void) { return R.used >= g_timeout + SMART_TIMEOUT; }
void h_recv(void) {
	setup();
	int rv = diag_l2_proto_saej1850.diag_l2_proto_recv(&g_conn, g_timeout, cb, &R);
	if (!(L1FLAGS & DIAG_L1_DOESL2FRAME)) { ENSURES("an interface that does not delimit frames is refused", rv == DIAG_ERR_PROTO_NOTSUPP && R.reads == 0 && R.cbs == 0); }
	else if (!ms_failed) {
		ENSURES("receives until a time-out, an error or the end of the time allowed", R.done || over());
		if (R.hard) { ENSURES("L1 errors are reported", rv == R.hard && R.cbs == 0); }
		else if (g_nx == 0) { ENSURES("nothing received is a time-out", rv == DIAG_ERR_TIMEOUT && R.cbs == 0); }
		else { ENSURES("the messages are delivered once", rv == 0 && R.cbs == 1); }
		VP_COVER("delivered", rv == 0);
	} else { ENSURES("no memory is reported", rv == DIAG_ERR_NOMEM && R.cbs == 0); }
	ENSURES("nothing stays queued, nothing leaks", g_conn.diag_msg == NULL && ms_nlive == 0);
}
void h_request(void) {
	int err = 77;
	setup();
	g_timeout = 250;
	g_sendrv = vp_okerr();
	struct diag_msg *r = diag_l2_proto_saej1850.diag_l2_proto_request(&g_conn, &g_msg, &err);
	ENSURES("the request is sent", g_l2sends == 1);
	if (g_sendrv < 0) { ENSURES("a failed send is reported without reading", r == NULL && err == g_sendrv && R.reads == 0); }
	else if (!(L1FLAGS & DIAG_L1_DOESL2FRAME)) { ENSURES("refused", r == NULL && err == DIAG_ERR_PROTO_NOTSUPP); }
	else if (ms_failed) { ENSURES("no memory is reported", r == NULL && err == DIAG_ERR_NOMEM); }
	else if (R.hard) { ENSURES("L1 errors are reported", r == NULL && err == R.hard); }
	else if (g_nx == 0) { ENSURES("no response is a time-out", r == NULL && err == DIAG_ERR_TIMEOUT); }
	else { ENSURES("the responses are returned", r != NULL); check_list(r); VP_COVER("response", true); }
	bool sent = g_sendrv >= 0;
	if (r != NULL) { ENSURES("they are the caller's alone", g_conn.diag_msg != r); diag_freemsg(r); }
	if (sent) { ENSURES("nothing stays queued, nothing leaks", g_conn.diag_msg == NULL && ms_nlive == 0); }
}
void h_start(void) {
	struct diag_msg *r; (void)r;
	g_conn.diag_link = &g_link; g_link.l2_dl0d = &g_dev;
#ifdef OOM
	vp_oom = true;
#endif
	uint8_t tgt = vp_u8(), src = vp_u8();
	int rv = diag_l2_proto_saej1850.diag_l2_proto_startcomms(&g_conn, vp_uint(), vp_uint(), tgt, src);
	if (obj_failed) { ENSURES("no memory is reported", rv == DIAG_ERR_NOMEM); return; }
	struct diag_l2_j1850 *dp = g_conn.diag_l2_proto_data;
	ENSURES("session state holds the caller's addresses", rv == 0 && obj_live && (void *)dp == (void *)&obj_store && dp->srcaddr == src && dp->dstaddr == tgt && dp->rxoffset == 0);
	ENSURES("stale input is flushed, then the bus idle time is waited", g_flushes == 1 && g_slept >= 50);
	rv = diag_l2_proto_saej1850.diag_l2_proto_stopcomms(&g_conn);
	ENSURES("stop releases the session state", rv == 0 && !obj_live && g_conn.diag_l2_proto_data == NULL);
}
#endif
