/* C14: L2 core: links, connections, keep-alive timer, forwarding. Real code: diag_l2.c */
#ifndef SLOTCAP
#define SLOTCAP 4
#endif
struct diag_l2_proto; extern const struct diag_l2_proto *l2proto_list[3];
#define diag_l2_debug stub_l2_debug
#define STUBS_NO_MS
#include "stubs_l1.h"
#undef diag_l2_debug
#include "msgstub.h"
#ifdef DIAG_DBGM
#undef DIAG_DBGM
#endif
#define DIAG_DBGM(...) do { } while (0)
#include "utlist.h"
static void l2_free(void *p);
#undef free
#define free(p) l2_free(p)
#include "diag_l2.c"
#ifndef PREFIX
#define PREFIX ""
#endif
/* time: never decreasing, arbitrary */
static unsigned long g_now;
unsigned long diag_os_getms(void) { unsigned long d = vp_uint(); g_now += d; return g_now; }
void diag_os_millisleep(unsigned int ms) { g_now += ms; }
/* connection-list lock: not recursive, released at the end of every operation */
static bool lk_held, lk_busy, g_done;
void diag_os_initstaticmtx(diag_mtx *m) { }
void diag_os_delmtx(diag_mtx *m) { }
void diag_os_lock(diag_mtx *m) { VP_CHECK("no deadlock: the list is not locked already", !lk_held); lk_held = true; }
void diag_os_unlock(diag_mtx *m) { VP_CHECK("only a held lock is released", lk_held); lk_held = false; }
bool diag_os_trylock(diag_mtx *m) { if (lk_held || lk_busy) { return false; } lk_held = true; return true; }
bool periodic_done(void) { return g_done; }
/* L1 */
static const struct diag_l0 l0drv = { .longname = "l", .shortname = "s" };
static struct diag_l0_device dev0, dev1;
static struct { unsigned opens; int openrv; bool openfail; uint32_t flags[2]; int type[2]; unsigned ioctls; unsigned io_cmd; void *io_data; struct diag_l0_device *io_dev; int io_rv; } L1 = { 0 };
static unsigned l1_open[2]; /* currently open */
static unsigned ix(const struct diag_l0_device *d) { VP_CHECK("a known device", d == &dev0 || d == &dev1); return d == &dev1; }
int diag_l1_open(struct diag_l0_device *d, int proto) { L1.opens++; if (L1.openfail) { L1.openrv = DIAG_ERR_BADIFADAPTER; return L1.openrv; } VP_CHECK("a device is opened once", l1_open[ix(d)] == 0); l1_open[ix(d)]++; return 0; }
void diag_l1_close(struct diag_l0_device *d) { VP_CHECK("only an open device is closed", l1_open[ix(d)] == 1); l1_open[ix(d)]--; }
uint32_t diag_l1_getflags(struct diag_l0_device *d) { return L1.flags[ix(d)]; }
int diag_l1_gettype(struct diag_l0_device *d) { return L1.type[ix(d)]; }
int diag_l1_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) { L1.ioctls++; L1.io_cmd = cmd; L1.io_data = data; L1.io_dev = d; L1.io_rv = vp_okerr(); return L1.io_rv; }
/* heap: contract of diag_fl_alloc / free on link and connection objects */
static struct diag_l2_link k0, k1, k2, kz; static struct diag_l2_conn c0, c1, c2, cz;
static bool kl[3], cl[3], h_fail, h_failed; static unsigned nk, nc;
static struct diag_l2_link *kp(unsigned i) { return i == 0 ? &k0 : i == 1 ? &k1 : &k2; }
static struct diag_l2_conn *cp(unsigned i) { return i == 0 ? &c0 : i == 1 ? &c1 : &c2; }
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) {
	*pp = NULL;
	if (h_fail) { h_failed = true; return DIAG_ERR_NOMEM; }
	VP_CHECK("a link or a connection is allocated, zeroed", c && (n * s == sizeof(k0) || n * s == sizeof(c0)));
	for (unsigned i = 0; i < 3; i++) {
		if (n * s == sizeof(k0) && !kl[i]) { kl[i] = true; nk++; *kp(i) = kz; *pp = kp(i); return 0; }
		if (n * s == sizeof(c0) && !cl[i]) { cl[i] = true; nc++; *cp(i) = cz; *pp = cp(i); return 0; }
	}
	VP_CHECK("unit bound: objects", false);
	return DIAG_ERR_NOMEM;
}
static void l2_free(void *p) {
	for (unsigned i = 0; i < 3; i++) {
		if (p == (void *)kp(i)) { VP_CHECK("free.pre: allocated", kl[i]); kl[i] = false; nk--; return; }
		if (p == (void *)cp(i)) { VP_CHECK("free.pre: allocated", cl[i]); cl[i] = false; nc--; return; }
	}
	VP_CHECK("free.pre: a link or a connection", p == NULL);
}
/* two protocols: 3 with keep-alive, 7 without */
static struct { unsigned starts, stops, sends, recvs, reqs, tmos; struct diag_l2_conn *conn; int proto; int startrv; struct diag_msg *msg; int rv; struct diag_msg *resp; unsigned long t; struct diag_l2_conn *t0, *t1; flag_type fl; unsigned br; target_type tg; source_type sr; } Q;
static struct diag_msg g_msg; static int g_err; static void (*g_cb)(void *, struct diag_msg *); static unsigned g_tmo;
static int p_start(struct diag_l2_conn *c, flag_type fl, unsigned br, target_type tg, source_type sr) {
	Q.starts++; Q.conn = c; Q.fl = fl; Q.br = br; Q.tg = tg; Q.sr = sr;
	VP_CHECK("not in use by the timer before it is established", c->diag_l2_state != DIAG_L2_STATE_OPEN);
	VP_CHECK("default timing before the session start: ISO 14230", c->diag_l2_p1max == 20 && c->diag_l2_p2min == 25 && c->diag_l2_p2max == 50 && c->diag_l2_p2emax == 5000 && c->diag_l2_p3min == 55 && c->diag_l2_p3max == 5000 && c->diag_l2_p4min == 5 && c->diag_l2_p4max == 20);
	VP_CHECK("keep-alive before P3max expires", c->tinterval > 0 && c->tinterval < 5000);
	VP_CHECK("connection knows its protocol, addresses and flags", c->diag_l2_type == fl && c->diag_l2_srcaddr == (uint8_t)sr && c->diag_l2_destaddr == (uint8_t)tg);
	return Q.startrv;
}
static int p_stop(struct diag_l2_conn *c) { Q.stops++; VP_CHECK("the session being stopped, not kept alive any more", c == Q.conn && c->diag_l2_state != DIAG_L2_STATE_OPEN); return vp_int(); }
static int p_send(struct diag_l2_conn *c, struct diag_msg *m) { VP_CHECK("request passed on", c == Q.conn && m == &g_msg && Q.sends == 0); Q.sends++; g_now += 1; return Q.rv; }
static int p_recv(struct diag_l2_conn *c, unsigned tmo, void (*cb)(void *, struct diag_msg *), void *h) { VP_CHECK("receive passed on", c == Q.conn && tmo == g_tmo && cb == g_cb && h == (void *)&Q && Q.recvs == 0); Q.recvs++; g_now += 1; return Q.rv; }
static struct diag_msg *p_req(struct diag_l2_conn *c, struct diag_msg *m, int *e) { VP_CHECK("request passed on", c == Q.conn && m == &g_msg && Q.reqs == 0); Q.reqs++; *e = Q.rv; g_now += 1; return Q.resp; }
static void p_tmo(struct diag_l2_conn *c) { Q.tmos++; if (Q.t0 == NULL) { Q.t0 = c; } else { VP_CHECK("one keep-alive per expiry", c != Q.t0 && Q.t1 == NULL); Q.t1 = c; } }
static const struct diag_l2_proto PA = { .diag_l2_protocol = 3, .shortname = "A", .diag_l2_flags = 0x11, .diag_l2_proto_startcomms = p_start, .diag_l2_proto_stopcomms = p_stop, .diag_l2_proto_send = p_send, .diag_l2_proto_recv = p_recv, .diag_l2_proto_request = p_req, .diag_l2_proto_timeout = p_tmo };
static const struct diag_l2_proto PB = { .diag_l2_protocol = 7, .shortname = "B", .diag_l2_flags = 0x22, .diag_l2_proto_startcomms = p_start, .diag_l2_proto_stopcomms = NULL, .diag_l2_proto_send = p_send, .diag_l2_proto_recv = p_recv, .diag_l2_proto_request = p_req, .diag_l2_proto_timeout = NULL };
const struct diag_l2_proto *l2proto_list[] = { &PA, &PB, NULL };
/* model */
static struct { bool link; int l1p; struct diag_l2_conn *conn; const struct diag_l2_proto *p; flag_type fl; unsigned long lo, hi; } M[2];
static struct diag_l0_device *dv(unsigned d) { return d ? &dev1 : &dev0; }
static void consistent(void) {
	ENSURES("the connection list is unlocked", !lk_held);
	for (unsigned d = 0; d < 2; d++) {
		ENSURES("a device is open exactly while its link exists", l1_open[d] == (M[d].link ? 1 : 0));
		if (M[d].conn) { ENSURES("connection intact", M[d].conn->diag_l2_state == DIAG_L2_STATE_OPEN && M[d].conn->l2proto == M[d].p && M[d].conn->diag_link->l2_dl0d == dv(d) && M[d].conn->diag_link->l1flags == L1.flags[d] && M[d].conn->diag_l2_type == M[d].fl); }
	}
	ENSURES("no link is leaked", nk == (unsigned)M[0].link + (unsigned)M[1].link);
	ENSURES("no connection is leaked", nc == (M[0].conn != NULL) + (M[1].conn != NULL));
	ENSURES("no message is leaked", ms_nlive == 0 || M[0].conn || M[1].conn);
}
static void op(char o, unsigned d) {
	if (M[0].conn == NULL && M[1].conn == NULL) { g_now = vp_uint(); }
	unsigned long before = g_now;
	if (ms_nlive == 0) { ms_n = 0; }
	Q.starts = Q.stops = Q.sends = Q.recvs = Q.reqs = Q.tmos = 0; Q.t0 = Q.t1 = NULL; L1.openfail = h_fail = h_failed = false; L1.opens = L1.ioctls = 0; Q.startrv = 0;
	switch (o) {
	case 'o': case 'O': case 'f': case 'n': {
		int pr = o == 'O' ? 2 : 1;
		L1.openfail = o == 'f'; h_fail = o == 'n';
		int rv = diag_l2_open(dv(d), pr);
		if (M[d].link) { ENSURES("an open device is shared with the same L1 protocol only", rv == (M[d].l1p == pr ? 0 : DIAG_ERR_PROTO_NOTSUPP) && L1.opens == 0); }
		else if (o == 'f') { ENSURES("L1 failure reported", rv == L1.openrv); }
		else if (o == 'n') { ENSURES("no memory reported", rv == DIAG_ERR_NOMEM); }
		else { ENSURES("opened", rv == 0 && L1.opens == 1); M[d].link = true; M[d].l1p = pr; }
		break; }
	case 'c': {
		int rv = diag_l2_close(dv(d));
		if (M[d].conn) { ENSURES("a device in use is not closed", rv < 0); }
		else { ENSURES("closed", rv == 0); M[d].link = false; }
		break; }
	case 's': case 'p': case 'u': case 'e': case 'm': case 'g': {
		flag_type fl = o == 'g' ? DIAG_L2_TYPE_MONINIT : DIAG_L2_TYPE_FASTINIT;
		unsigned br = vp_uint(); target_type tg = vp_u8(); source_type sr = vp_u8();
		h_fail = o == 'm';
		if (o == 'e') { Q.startrv = DIAG_ERR_WRONGKB; }
		struct diag_l2_conn *c = diag_l2_StartCommunications(dv(d), o == 'u' ? 5 : o == 'p' ? 7 : 3, fl, br, tg, sr);
		if (!M[d].link || M[d].conn || o == 'u' || o == 'm') { ENSURES("no session without an open, free device, a known protocol and memory", c == NULL && Q.starts == 0); }
		else {
			ENSURES("the protocol's session start is run once, with the caller's parameters", Q.starts == 1 && Q.fl == fl && Q.br == br && Q.tg == tg && Q.sr == sr);
			if (o == 'e') { ENSURES("a failed start gives no session", c == NULL); }
			else { ENSURES("session", c != NULL && c == Q.conn); M[d].conn = c; M[d].p = o == 'p' ? &PB : &PA; M[d].fl = fl; M[d].lo = before; M[d].hi = g_now; }
		}
		break; }
	case 't': case 'T':
		if (M[d].conn == NULL) { break; }
		if (o == 'T') { diag_l2_addmsg(M[d].conn, diag_allocmsg(2)); diag_l2_addmsg(M[d].conn, diag_allocmsg(1)); ENSURES("queued in order", M[d].conn->diag_msg->len == 2 && M[d].conn->diag_msg->next->len == 1 && M[d].conn->diag_msg->next->next == NULL); }
		Q.conn = M[d].conn;
		ENSURES("stopped", diag_l2_StopCommunications(M[d].conn) == 0 && Q.stops == (M[d].p == &PA));
		M[d].conn = NULL;
		if (o == 'T') { ENSURES("queued messages are released", ms_nlive == 0); }
		break;
	case 'x': case 'q': case 'r': case 'X': case 'Q': case 'R': case 'w': {
		if (M[d].conn == NULL) { break; }
		Q.conn = M[d].conn;
		bool good = o == 'x' || o == 'q' || o == 'r' || o == 'w';
		Q.rv = good && o != 'w' ? 0 : DIAG_ERR_TIMEOUT;
		Q.resp = good ? &g_msg : NULL;
		if (o == 'w' || o == 'Q') { o = 'q'; }
		if (o == 'X') { o = 'x'; }
		if (o == 'R') { o = 'r'; }
		if (o == 'x') { int rv = diag_l2_send(M[d].conn, &g_msg); ENSURES("result of the protocol", rv == Q.rv && Q.sends == 1); }
		if (o == 'r') { g_tmo = vp_uint(); int rv = diag_l2_recv(M[d].conn, g_tmo, g_cb, &Q); ENSURES("result of the protocol", rv == Q.rv && Q.recvs == 1); }
		if (o == 'q') { int e = 77; struct diag_msg *r = diag_l2_request(M[d].conn, &g_msg, &e); ENSURES("result of the protocol", r == Q.resp && e == Q.rv && Q.reqs == 1); }
		if (good) { M[d].lo = before; M[d].hi = g_now; VP_COVER("good", true); }
		break; }
	case 'i': case 'I': case 'D': {
		lk_busy = o == 'I'; g_done = o == 'D';
		diag_l2_timer();
		if (o != 'i') { ENSURES("no keep-alive while the list is in use or after the end", Q.tmos == 0); }
		else {
			for (unsigned k = 0; k < 2; k++) {
				if (M[k].conn == NULL) { continue; }
				bool alive = Q.t0 == M[k].conn || Q.t1 == M[k].conn;
				bool wants = (M[k].fl & DIAG_L2_TYPE_INITMASK) != DIAG_L2_TYPE_MONINIT && !(L1.flags[k] & DIAG_L1_DOESKEEPALIVE) && M[k].p == &PA;
				if (!wants) { ENSURES("no keep-alive when monitoring, when the interface does it, or when the protocol has none", !alive); }
				else {
					ENSURES("an idle session is kept alive", IMPLIES(before > M[k].hi && before - M[k].hi > M[k].conn->tinterval, alive));
					ENSURES("a session in use is not disturbed", IMPLIES(g_now - M[k].lo <= M[k].conn->tinterval, !alive));
					VP_COVER("kept alive", alive); VP_COVER("not due", !alive);
				}
			}
		}
		lk_busy = false; g_done = false;
		break; }
	}
	consistent();
}
static void setup(void) {
	dev0.dl0 = dev1.dl0 = &l0drv;
	L1.flags[0] = (uint32_t)vp_uint(); L1.flags[1] = (uint32_t)vp_uint(); L1.type[0] = vp_int(); L1.type[1] = vp_int();
	diag_l2_init();
	g_msg.len = 1;
}
void h_seq(void) {
	static const char s[] = PREFIX;
	setup();
	for (unsigned i = 0; i + 1 < sizeof(s); i += 2) { op(s[i], s[i + 1] == '1'); }
	/* everything can be closed down again */
	op('t', 0); op('t', 1); op('c', 0); op('c', 1);
	ENSURES("closed down", l1_open[0] == 0 && l1_open[1] == 0 && nk == 0 && nc == 0 && ms_nlive == 0);
}
void h_ioctl(void) {
	static struct diag_l2_link k; static struct diag_l2_conn c; static int data; static struct diag_l2_data ld; static uint32_t u;
	setup();
	k.l2_dl0d = &dev1; k.l1flags = L1.flags[1]; c.diag_link = &k; c.l2proto = vp_bool() ? &PA : &PB;
	c.diag_l2_physaddr = vp_u8(); c.diag_l2_kb1 = vp_u8(); c.diag_l2_kb2 = vp_u8();
	unsigned cmd = vp_uint();
	void *p = cmd == DIAG_IOCTL_GET_L2_DATA ? (void *)&ld : cmd == DIAG_IOCTL_GET_L1_FLAGS ? (void *)&u : (void *)&data;
	int rv = diag_l2_ioctl(&c, cmd, p);
	bool l1 = true;
	if (cmd == DIAG_IOCTL_GET_L1_TYPE) { l1 = false; ENSURES("type", rv == 0 && data == L1.type[1]); }
	else if (cmd == DIAG_IOCTL_GET_L1_FLAGS) { l1 = false; ENSURES("interface flags", rv == 0 && u == L1.flags[1]); }
	else if (cmd == DIAG_IOCTL_GET_L2_FLAGS) { l1 = false; ENSURES("protocol flags", rv == 0 && data == c.l2proto->diag_l2_flags); }
	else if (cmd == DIAG_IOCTL_GET_L2_DATA) { l1 = false; ENSURES("session data", rv == 0 && ld.physaddr == c.diag_l2_physaddr && ld.kb1 == c.diag_l2_kb1 && ld.kb2 == c.diag_l2_kb2); }
	else if (cmd == DIAG_IOCTL_SETSPEED) { l1 = !(k.l1flags & (DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY)); }
	else if (cmd == DIAG_IOCTL_IFLUSH) { l1 = !(k.l1flags & DIAG_L1_NOTTY); }
	else if (cmd == DIAG_IOCTL_SETWM) { l1 = (k.l1flags & DIAG_L1_DOESKEEPALIVE) != 0; }
	if (l1) { ENSURES("passed to the interface unchanged, its result reported", L1.ioctls == 1 && L1.io_cmd == cmd && L1.io_data == p && L1.io_dev == &dev1 && rv == L1.io_rv); }
	else { ENSURES("not passed to an interface that has no use for it", L1.ioctls == 0 && rv == 0); }
	VP_COVER("passed", l1); VP_COVER("kept", !l1);
}
