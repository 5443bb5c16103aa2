/* C15: L3 core: connections, forwarding, timers. Real code: diag_l3.c */
struct diag_l3_proto; extern const struct diag_l3_proto *diag_l3_protocols[3];
#ifndef SLOTCAP
#define SLOTCAP 4
#endif
#define diag_l3_debug stub_l3_debug
#define STUBS_NO_MS
#include "stubs_l1.h"
#undef diag_l3_debug
#include "diag_l3.h"
#include "msgstub.h"
#ifdef DIAG_DBGM
#undef DIAG_DBGM
#endif
#define DIAG_DBGM(...) do { } while (0)
#include "utlist.h"
static void l3_free(void *p);
#undef free
#define free(p) l3_free(p)
#include "diag_l3.c"
#ifndef PREFIX
#define PREFIX ""
#endif
static unsigned long g_now;
unsigned long diag_os_getms(void) { unsigned long d = vp_uint(); g_now += d; return g_now; }
void diag_os_millisleep(unsigned int ms) { g_now += ms; }
static bool lk_held, lk_busy, g_done;
void diag_os_initstaticmtx(diag_mtx *m) { }
void diag_os_delmtx(diag_mtx *m) { }
void diag_os_lock(diag_mtx *m) { VP_CHECK("no deadlock: the list is not locked already", !lk_held); lk_held = true; }
void diag_os_unlock(diag_mtx *m) { VP_CHECK("only a held lock is released", lk_held); lk_held = false; }
bool diag_os_trylock(diag_mtx *m) { if (lk_held || lk_busy) { return false; } lk_held = true; return true; }
bool periodic_done(void) { return g_done; }
/* L2: arbitrary flags; other control calls are recorded */
static struct diag_l2_conn l2a, l2b;
static struct { int f2[2]; uint32_t f1[2]; unsigned ioctls; unsigned cmd; void *data; struct diag_l2_conn *c; int rv; } L2 = { 0 };
static bool in_start;
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *data) {
	VP_CHECK("a known L2 session", c == &l2a || c == &l2b);
	if (in_start) {
		VP_CHECK("only the flags are asked for", cmd == DIAG_IOCTL_GET_L2_FLAGS || cmd == DIAG_IOCTL_GET_L1_FLAGS);
		if (cmd == DIAG_IOCTL_GET_L2_FLAGS) { *(int *)data = L2.f2[c == &l2b]; } else { *(uint32_t *)data = L2.f1[c == &l2b]; }
		return 0;
	}
	L2.ioctls++; L2.cmd = cmd; L2.data = data; L2.c = c; L2.rv = vp_okerr(); return L2.rv;
}
static struct diag_msg g_msg;
static struct { unsigned reqs; struct diag_msg *resp; int rv; struct diag_l2_conn *c; } LQ;
struct diag_msg *diag_l2_request(struct diag_l2_conn *c, struct diag_msg *m, int *e) { VP_CHECK("request passed to L2", m == &g_msg); LQ.reqs++; LQ.c = c; *e = LQ.rv; return LQ.resp; }
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) { VP_CHECK("L2 is not used directly", false); return 0; }
int diag_l2_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { VP_CHECK("L2 is not used directly", false); return 0; }
/* heap of connection objects */
static struct diag_l3_conn c0, c1, c2, cz; static bool cl[3], h_fail; static unsigned nc;
static struct diag_l3_conn *cp(unsigned i) { return i == 0 ? &c0 : i == 1 ? &c1 : &c2; }
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) {
	*pp = NULL;
	if (h_fail) { return DIAG_ERR_NOMEM; }
	VP_CHECK("a connection is allocated, zeroed", c && n * s == sizeof(c0));
	for (unsigned i = 0; i < 3; i++) { if (!cl[i]) { cl[i] = true; nc++; *cp(i) = cz; *pp = cp(i); return 0; } }
	VP_CHECK("unit bound: objects", false);
	return DIAG_ERR_NOMEM;
}
static void l3_free(void *p) {
	for (unsigned i = 0; i < 3; i++) { if (p == (void *)cp(i)) { VP_CHECK("free.pre: allocated", cl[i]); cl[i] = false; nc--; return; } }
	VP_CHECK("free.pre: a connection", p == NULL);
}
/* two protocols: AbC with timer and control calls, xY without */
static struct { unsigned starts, stops, sends, recvs, reqs, tmos, decs, ios; struct diag_l3_conn *conn; int startrv, stoprv, rv; struct diag_msg *resp; struct diag_l3_conn *t0, *t1; unsigned long m0, m1; } Q;
static int g_err; static void (*g_cb)(void *, struct diag_msg *); static unsigned g_tmo; static char g_buf[4]; static size_t g_bs; static unsigned g_cmd; static struct diag_l2_conn *g_l2;
static int p_start(struct diag_l3_conn *c) { Q.starts++; Q.conn = c; VP_CHECK("connection knows its session and flags", c->d_l3l2_conn == g_l2 && c->d_l3l2_flags == L2.f2[g_l2 == &l2b] && c->d_l3l1_flags == L2.f1[g_l2 == &l2b] && c->msg == NULL); VP_CHECK("the list is not locked during exchanges", !lk_held); return Q.startrv; }
static int p_stop(struct diag_l3_conn *c) { Q.stops++; VP_CHECK("the connection being stopped", c == Q.conn && !lk_held); return Q.stoprv; }
static int p_send(struct diag_l3_conn *c, struct diag_msg *m) { VP_CHECK("message passed on", c == Q.conn && m == &g_msg && Q.sends == 0); Q.sends++; g_now += 1; return Q.rv; }
static int p_recv(struct diag_l3_conn *c, unsigned tmo, void (*cb)(void *, struct diag_msg *), void *h) { VP_CHECK("receive passed on", c == Q.conn && tmo == g_tmo && cb == g_cb && h == (void *)&Q && Q.recvs == 0); Q.recvs++; g_now += 1; return Q.rv; }
static struct diag_msg *p_req(struct diag_l3_conn *c, struct diag_msg *m, int *e) { VP_CHECK("request passed on", c == Q.conn && m == &g_msg && Q.reqs == 0); Q.reqs++; *e = Q.rv; g_now += 1; return Q.resp; }
static void p_dec(struct diag_l3_conn *c, struct diag_msg *m, char *b, const size_t n) { VP_CHECK("message to decode passed on", c == Q.conn && m == &g_msg && b == g_buf && n == g_bs); Q.decs++; }
static int p_io(struct diag_l3_conn *c, int cmd, void *d) { VP_CHECK("control call passed on", c == Q.conn && cmd == (int)g_cmd && d == (void *)&g_err); Q.ios++; return Q.rv; }
static int p_tmo(struct diag_l3_conn *c, unsigned long ms) { Q.tmos++; if (Q.t0 == NULL) { Q.t0 = c; Q.m0 = ms; } else { VP_CHECK("each connection's timer runs once", c != Q.t0 && Q.t1 == NULL); Q.t1 = c; Q.m1 = ms; } return vp_okerr(); }
static const struct diag_l3_proto PA = { .proto_name = "AbC", .diag_l3_proto_start = p_start, .diag_l3_proto_stop = p_stop, .diag_l3_proto_send = p_send, .diag_l3_proto_recv = p_recv, .diag_l3_proto_ioctl = p_io, .diag_l3_proto_request = p_req, .diag_l3_proto_decode = p_dec, .diag_l3_proto_timer = p_tmo };
static const struct diag_l3_proto PB = { .proto_name = "xY", .diag_l3_proto_start = p_start, .diag_l3_proto_stop = p_stop, .diag_l3_proto_send = p_send, .diag_l3_proto_recv = p_recv, .diag_l3_proto_ioctl = NULL, .diag_l3_proto_request = p_req, .diag_l3_proto_decode = p_dec, .diag_l3_proto_timer = NULL };
const struct diag_l3_proto *diag_l3_protocols[3] = { &PA, &PB, NULL };
/* model */
static struct { struct diag_l3_conn *conn; const struct diag_l3_proto *p; unsigned long lo, hi; } M[2];
static void consistent(void) {
	ENSURES("the connection list is unlocked", !lk_held);
	for (unsigned d = 0; d < 2; d++) {
		if (M[d].conn) { ENSURES("connection intact", M[d].conn->d_l3_proto == M[d].p && M[d].conn->d_l3l2_conn == (d ? &l2b : &l2a)); }
	}
	ENSURES("no connection is leaked", nc == (M[0].conn != NULL) + (M[1].conn != NULL));
	ENSURES("no message is leaked", ms_nlive == 0 || M[0].conn || M[1].conn);
}
static void op(char o, unsigned d) {
	if (M[0].conn == NULL && M[1].conn == NULL) { g_now = vp_uint(); }
	unsigned long before = g_now;
	if (ms_nlive == 0) { ms_n = 0; }
	Q.starts = Q.stops = Q.sends = Q.recvs = Q.reqs = Q.tmos = Q.decs = Q.ios = 0; Q.t0 = Q.t1 = NULL; h_fail = false; Q.startrv = 0; L2.ioctls = 0;
	switch (o) {
	case 's': case 'p': case 'u': case 'S': case 'e': case 'm': {
		if (M[d].conn) { break; }
		h_fail = o == 'm';
		if (o == 'e') { Q.startrv = DIAG_ERR_ECUSAIDNO; }
		in_start = true; g_l2 = d ? &l2b : &l2a;
		struct diag_l3_conn *c = diag_l3_start(o == 'u' ? "AbCd" : o == 'p' ? "xY" : o == 'S' ? "aBc" : "AbC", g_l2);
		in_start = false;
		if (o == 'u' || o == 'm') { ENSURES("no connection for an unknown protocol or without memory", c == NULL && Q.starts == 0); }
		else {
			ENSURES("the protocol's start is run once", Q.starts == 1);
			if (o == 'e') { ENSURES("a failed start gives no connection", c == NULL); }
			else { ENSURES("connection", c != NULL && c == Q.conn); M[d].conn = c; M[d].p = o == 'p' ? &PB : &PA; M[d].lo = before; M[d].hi = g_now; }
		}
		break; }
	case 't': case 'T': case 'z':
		if (M[d].conn == NULL) { break; }
		if (o == 'T') { struct diag_msg *m = diag_allocmsg(2); m->next = diag_allocmsg(1); M[d].conn->msg = m; }
		Q.conn = M[d].conn; Q.stoprv = o == 'z' ? DIAG_ERR_GENERAL : 0;
		int srv = diag_l3_stop(M[d].conn);
		ENSURES("stopped, with the protocol's result", srv == Q.stoprv && Q.stops == 1);
		M[d].conn = NULL;
		if (o == 'T') { ENSURES("queued messages are released", ms_nlive == 0); }
		break;
	case 'x': case 'q': case 'r': case 'X': case 'Q': case 'R': case 'W': case 'd': case 'c': {
		if (M[d].conn == NULL) { break; }
		Q.conn = M[d].conn;
		bool good = o == 'x' || o == 'q' || o == 'r';
		Q.rv = good ? 0 : o == 'W' ? DIAG_ERR_TIMEOUT : DIAG_ERR_BADDATA;
		Q.resp = good ? &g_msg : NULL;
		if (o == 'x' || o == 'X') { int rv = diag_l3_send(M[d].conn, &g_msg); ENSURES("result of the protocol", rv == Q.rv && Q.sends == 1); }
		if (o == 'r' || o == 'R' || o == 'W') { g_tmo = vp_uint(); int rv = diag_l3_recv(M[d].conn, g_tmo, g_cb, &Q); ENSURES("result of the protocol", rv == Q.rv && Q.recvs == 1); }
		if (o == 'q' || o == 'Q') { int e = 77; struct diag_msg *r = diag_l3_request(M[d].conn, &g_msg, &e); ENSURES("result of the protocol", r == Q.resp && e == Q.rv && Q.reqs == 1); }
		if (o == 'd') { g_bs = vp_size(); diag_l3_decode(M[d].conn, &g_msg, g_buf, g_bs); ENSURES("decoded by the protocol", Q.decs == 1); }
		if (o == 'c') {
			g_cmd = vp_uint(); int rv = diag_l3_ioctl(M[d].conn, g_cmd, &g_err);
			if (M[d].p == &PA) { ENSURES("control call of the protocol", Q.ios == 1 && L2.ioctls == 0 && rv == Q.rv); }
			else { ENSURES("control call of the session", L2.ioctls == 1 && L2.cmd == g_cmd && L2.data == (void *)&g_err && L2.c == M[d].conn->d_l3l2_conn && rv == L2.rv); }
		}
		if (good) { M[d].lo = before; M[d].hi = g_now; VP_COVER("good", true); }
		break; }
	case 'b': {     /* default implementations: request through L2 */
		if (M[d].conn == NULL) { break; }
		LQ.reqs = 0; bool ok = vp_bool(); LQ.resp = ok ? &g_msg : NULL; LQ.rv = ok ? 0 : DIAG_ERR_TIMEOUT;
		int e = 77; struct diag_msg *r = diag_l3_base_request(M[d].conn, &g_msg, &e);
		ENSURES("request through L2, its result", LQ.reqs == 1 && LQ.c == M[d].conn->d_l3l2_conn && r == LQ.resp && e == LQ.rv);
		if (ok) { M[d].hi = g_now; }
		ENSURES("default start and stop", diag_l3_base_start(M[d].conn) == 0 && diag_l3_base_stop(M[d].conn) == 0);
		break; }
	case 'i': case 'I': case 'D': {
		lk_busy = o == 'I'; g_done = o == 'D';
		diag_l3_timer();
		if (o != 'i') { ENSURES("no timer runs while the list is in use or after the end", Q.tmos == 0); }
		else {
			for (unsigned k = 0; k < 2; k++) {
				if (M[k].conn == NULL) { continue; }
				bool ran = Q.t0 == M[k].conn || Q.t1 == M[k].conn;
				bool wants = !(L2.f1[k] & DIAG_L1_DOESKEEPALIVE) && M[k].p == &PA;
				ENSURES("exactly the protocols with a timer run it, unless the interface keeps the session alive", ran == wants);
				if (ran) {
					unsigned long ms = Q.t0 == M[k].conn ? Q.m0 : Q.m1;
					ENSURES("told the time since the last exchange of this connection", ms >= before - M[k].hi && ms <= g_now - M[k].lo);
				}
				VP_COVER("ran", ran); VP_COVER("not wanted", !ran);
			}
		}
		lk_busy = false; g_done = false;
		break; }
	}
	consistent();
}
void h_seq(void) {
	static const char s[] = PREFIX;
	L2.f1[0] = (uint32_t)vp_uint(); L2.f1[1] = (uint32_t)vp_uint(); L2.f2[0] = vp_int(); L2.f2[1] = vp_int();
	diag_l3_init();
	g_msg.len = 1;
	for (unsigned i = 0; i + 1 < sizeof(s); i += 2) { op(s[i], s[i + 1] == '1'); }
	op('t', 0); op('t', 1);
	ENSURES("closed down", nc == 0 && ms_nlive == 0 && diag_l3_list == NULL);
}
