/* C12: RAW pass-through. Real code: diag_l2_raw.c */
#define SLOTCAP 1024
#define NSLOTS 1
#include "stubs_l1.h"
static struct diag_l0_device g_dev;
static struct diag_l2_link g_link;
static struct diag_l2_conn g_conn;
static struct diag_msg g_msg, g_new;
static uint8_t g_newdata[MAXRBUF];
static bool g_live, g_oom; static unsigned g_allocs;
/* contract of diag_allocmsg (C01) on one message whose data end at the end of storage */
struct diag_msg *diag_allocmsg(size_t n) {
	g_allocs++;
	if (n > DIAG_MAX_MSGLEN) { return NULL; }
	VP_CHECK("one message", !g_live && n >= 1 && n <= MAXRBUF);
	if (vp_bool()) { g_oom = true; return NULL; }
	g_live = true; g_new.len = (unsigned)n; g_new.next = NULL; g_new.data = g_new.idata = g_newdata + (MAXRBUF - n); g_new.iflags = DIAG_MSG_IFLAG_MALLOC;
	return &g_new;
}
void diag_freemsg(struct diag_msg *m) { VP_CHECK("free.pre", m == &g_new && g_live); g_live = false; }
struct diag_msg *diag_dupsinglemsg(struct diag_msg *o) { return NULL; }
#include "diag_l2_raw.c"
static unsigned g_k; static uint8_t g_wit; static int g_rv; static unsigned g_timeout;
static struct { unsigned reads, cbs, sends, l2sends, ioctls; int srv, l2rv, iorv; unsigned speed; } S;
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned tout) {
	VP_CHECK("diag_l1_recv.pre", d == &g_dev && n >= 1 && n <= MAXRBUF && VP_W_OK(p, n));
	VP_CHECK("one read, with the time-out", S.reads == 0 && (g_timeout == 0 ? tout > 0 : tout == g_timeout));
	S.reads++;
	g_rv = vp_int();
	VP_ASSUME(g_rv != 0 && g_rv >= -100 && g_rv <= (int)n);
	if (g_rv > 0) { struct { uint8_t b[MAXRBUF]; } *q = p; if (n == MAXRBUF) { VP_BYTES(q, MAXRBUF); } if (g_k < (unsigned)g_rv) { g_wit = ((uint8_t *)p)[g_k]; } }
	return g_rv;
}
int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) {
	VP_CHECK("the payload itself is sent", dev == &g_dev && v == g_msg.data && len == g_msg.len && p4 == g_conn.diag_l2_p4min);
	S.sends++;
	return S.srv;
}
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) { VP_CHECK("the request is sent before reading", c == &g_conn && m == &g_msg && S.reads == 0); S.l2sends++; return S.l2rv; }
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) {
	struct diag_serial_settings *s = d;
	VP_CHECK("sets the requested speed, 8N1", c == &g_conn && cmd == DIAG_IOCTL_SETSPEED && s->speed == S.speed && s->databits == diag_databits_8 && s->stopbits == diag_stopbits_1 && s->parflag == diag_par_n);
	S.ioctls++;
	return S.iorv;
}
static void setup(void) {
	g_link.l2_dl0d = &g_dev; g_conn.diag_link = &g_link; g_conn.diag_l2_p4min = vp_u16();
	diag_l2_debug = 0; g_k = vp_uint(); S.srv = vp_okerr(); S.l2rv = vp_okerr(); S.iorv = vp_okerr();
	g_msg.len = vp_uint(); g_msg.data = g_newdata;
	g_msg.fmt = 0;
}
void h_send(void) {
	setup();
	REQUIRES(g_msg.len >= 1 && g_msg.len <= DIAG_MAX_MSGLEN);
	int rv = diag_l2_proto_raw.diag_l2_proto_send(&g_conn, &g_msg);
	ENSURES("sent once, result reported", S.sends == 1 && rv == S.srv);
}
static void cb(void *h, struct diag_msg *m) {
	VP_CHECK("handle", h == (void *)&S);
	S.cbs++;
	ENSURES("one message of what was read", g_rv > 0 && m->next == NULL && m->len == (unsigned)g_rv && VP_R_OK(m->data, m->len));
	ENSURES("bytes unchanged", IMPLIES(g_k < (unsigned)g_rv, m->data[g_k] == g_wit));
	ENSURES("not marked as framed or checksummed", m->fmt == 0);
}
void h_recv(void) {
	setup();
	g_timeout = vp_uint(); REQUIRES(g_timeout > 0);
	int rv = diag_l2_proto_raw.diag_l2_proto_recv(&g_conn, g_timeout, cb, &S);
	ENSURES("one read", S.reads == 1);
	ENSURES("errors reported, data delivered once", g_oom || (g_rv < 0 ? rv == g_rv && S.cbs == 0 : rv == 0 && S.cbs == 1));
	ENSURES("nothing leaks", !g_live);
	VP_COVER("data", g_rv > 0); VP_COVER("error", g_rv < 0); VP_COVER("long", g_rv > 255);
}
void h_request(void) {
	int err = 77;
	setup();
	g_timeout = 0;
	struct diag_msg *r = diag_l2_proto_raw.diag_l2_proto_request(&g_conn, &g_msg, &err);
	ENSURES("sent once", S.l2sends == 1);
	if (S.l2rv < 0) { ENSURES("failed send reported", r == NULL && err == S.l2rv && S.reads == 0); }
	else if (g_rv < 0) { ENSURES("read error reported", r == NULL && err == g_rv); }
	else if (g_oom) { ENSURES("no memory reported", r == NULL && err == DIAG_ERR_NOMEM); }
	else { ENSURES("the response is returned", r != NULL); S.cbs = 0; cb(&S, r); VP_COVER("response", true); }
	ENSURES("the response is the caller's", IFF(g_live, r != NULL));
}
void h_start(void) {
	setup();
	S.speed = vp_uint(); uint8_t t = vp_u8(), s = vp_u8();
	int rv = diag_l2_proto_raw.diag_l2_proto_startcomms(&g_conn, vp_uint(), S.speed, t, s);
	ENSURES("started exactly when the speed was set", S.ioctls == 1 && IFF(rv == 0, S.iorv == 0) && rv <= 0);
	ENSURES("addresses kept", IMPLIES(rv == 0, g_conn.diag_l2_destaddr == t && g_conn.diag_l2_srcaddr == s));
	ENSURES("stop", diag_l2_proto_raw.diag_l2_proto_stopcomms(&g_conn) == 0);
	ENSURES("no bus traffic", S.sends == 0 && S.reads == 0);
}
