/* C16: SAE J1979 layer. Real code: diag_l3_saej1979.c */
#ifndef SLOTCAP
#define SLOTCAP 8
#endif
#include "stubs_l1.h"
#include "diag_l3.h"
#include "msgstub.h"
#include "txt.h"
#ifdef DIAG_DBGM
#undef DIAG_DBGM
#undef DIAG_DBGMDATA
#endif
#define DIAG_DBGM(...) do { } while (0)
#define DIAG_DBGMDATA(...) do { } while (0)
#ifdef SYMCOPY
/* contract of memcpy, observed at the witness byte w_k of the object w_base */
static uint8_t *w_base; static size_t w_k;
static void *vp_bytecopy(void *d, const void *s, size_t n) {
	VP_CHECK("memcpy.pre: readable source, writable destination", VP_R_OK(s, n) && VP_W_OK(d, n));
#ifdef VP_REPLAY
	return (memcpy)(d, s, n);
#else
	VP_CHECK("copied into the buffer", __CPROVER_same_object(d, w_base));
	size_t o = (size_t)((uint8_t *)d - w_base);
	if (w_k >= o && w_k < o + n) { w_base[w_k] = ((const uint8_t *)s)[w_k - o]; }
	return d;
#endif
}
#define memcpy vp_bytecopy
#else
static void *vp_bytecopy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) { ((uint8_t *)d)[i] = ((const uint8_t *)s)[i]; } return d; }
static void *vp_bytemove(void *d, const void *s, size_t n) {
	uint8_t t[16];
	VP_CHECK("unit bound: moved bytes", n <= sizeof(t));
	for (size_t i = 0; i < n; i++) { t[i] = ((const uint8_t *)s)[i]; }
	for (size_t i = 0; i < n; i++) { ((uint8_t *)d)[i] = t[i]; }
	return d;
}
#define memcpy vp_bytecopy
#define memmove vp_bytemove
#endif
static void j_free(void *p);
#undef free
#define free(p) j_free(p)
#include "diag_l3_saej1979.c"
#undef snprintf
#undef memcpy
#undef memmove
#ifndef MODE
#define MODE 'r'
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef SID0
#define SID0 0x41
#endif
#ifndef BS
#define BS 256
#endif
static struct diag_l3_conn g_c; static struct diag_l2_conn g_l2;
static struct l3_j1979_int ji, jz; static bool j_live, j_oom;
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) {
	*pp = NULL;
	if (j_oom) { return DIAG_ERR_NOMEM; }
	VP_CHECK("the connection's data, zeroed", n * s == sizeof(ji) && c && !j_live);
	ji = jz; j_live = true; *pp = &ji; return 0;
}
static void j_free(void *p) { if (p == NULL) { return; } VP_CHECK("free.pre: the connection's data", p == (void *)&ji && j_live); j_live = false; }
struct diag_msg *diag_l3_base_request(struct diag_l3_conn *c, struct diag_msg *m, int *e) { return NULL; }
/* contract of diag_l3_request (C15) */
static struct { unsigned n; uint8_t d0, d1, src; unsigned len; char mode; uint8_t r0; int err; } RQ = { 0 };
struct diag_msg *diag_l3_request(struct diag_l3_conn *c, struct diag_msg *m, int *e) {
	RQ.n++; RQ.len = m->len; RQ.d0 = m->data[0]; RQ.d1 = m->data[1]; RQ.src = m->src;
	VP_CHECK("on this connection", c == &g_c);
	if (RQ.mode == 'T') { *e = RQ.err; return NULL; }
	struct diag_msg *r = ms_new(RQ.mode == '0' ? 0 : 6);
	VP_ASSUME(r != NULL);
	if (r->len) { r->data[0] = RQ.r0; r->data[1] = vp_u8(); }
	*e = 0; return r;
}
/* L2, scripted: reads */
#ifndef EVENTS
#define EVENTS ""
#endif
static const char ev[] = EVENTS;
static struct { unsigned pos, sends; int rv; struct diag_msg *m; struct diag_l2_conn *c; unsigned tmo[8], ntmo; int err; } L = { 0 };
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) { L.sends++; L.c = c; L.m = m; return L.rv; }
/* ---- expected lengths, after SAE J1979 tables (message data bytes without header and checksum) ---- */
static int x_pid(unsigned pid) {        /* data bytes of a mode 1 PID, 0: not defined */
	if (pid <= 0x20 || (pid & 0x1f) == 0) {
		switch (pid & 0x1f) { case 0: return 4; }
		if (pid == 0x01) { return 4; }
		if (pid == 0x03 || pid == 0x0C || pid == 0x10 || (pid >= 0x14 && pid <= 0x1B) || pid == 0x1F) { return 2; }
		if (pid == 0x02) { return 2; }
		return 1;
	}
	if (pid >= 0x55 && pid <= 0x58) { return 1; }
	return 0;
}
static int x_len(const uint8_t *d, int n) {     /* -1: incomplete, 0: bad */
	if (n < 1) { return -1; }
	switch (d[0]) {
	case 1: case 6: case 9: return 2;
	case 2: case 5: return 3;
	case 3: case 4: case 7: return 1;
	case 8: return 7;
	case 0x43: return 7;
	case 0x44: return 1;
	case 0x41: case 0x42: case 0x45: case 0x46: case 0x47: case 0x48: case 0x49: break;
	default: return 0;
	}
	if (n < 2) { return -1; }
	unsigned p = d[1];
	switch (d[0]) {
	case 0x41: return p == 2 || !x_pid(p) ? 0 : 2 + x_pid(p);
	case 0x42: return p == 1 || !x_pid(p) ? 0 : 3 + x_pid(p);
	case 0x45: return (p & 0x1f) == 0 ? 7 : p <= 4 ? 4 : 6;
	case 0x49: return (p & 0x1f) == 0 || (p & 1) ? 7 : 3;
	default: return 7;
	}
}
void h_getlen(void) {
	static uint8_t b[2];
	int n = vp_int();
	REQUIRES(n >= -1 && n <= MAXRBUF);
	b[0] = vp_u8(); b[1] = vp_u8();
	int x = x_len(b, n);
	int rv = diag_l3_j1979_getlen(n == 1 ? b + 1 : b, n);
	if (n == 1) { x = x_len(b + 1, 1); }
	if (x == -1) { ENSURES("more data is needed", rv == DIAG_ERR_INCDATA); }
	else if (x == 0) { ENSURES("not a J1979 message", rv < 0 && rv != DIAG_ERR_INCDATA); }
	else { ENSURES("the length of this J1979 message", rv == x); }
	VP_COVER("length", x > 0); VP_COVER("bad", x == 0); VP_COVER("incomplete", x == -1);
}
/* receive callback: any message, any amount buffered */
static struct { unsigned n; struct diag_msg *m; void *h; } U;
static void u_cb1(void *h, struct diag_msg *m) { U.n++; U.m = m; U.h = h; }
void h_rcvcb(void) {
	static struct diag_msg m; static uint8_t d[255];
	int off = vp_int(); unsigned k = vp_uint();
	REQUIRES(off >= 0 && off <= MAXRBUF && k < MAXRBUF);
	m.len = vp_uint(); REQUIRES(m.len <= 255);
	m.data = d + (255 - m.len); m.fmt = vp_u8();
	unsigned j = vp_uint(); REQUIRES(j < 255);
	d[j] = vp_u8();
	g_c.l3_int = &ji; ji.rxoffset = off; ji.rxbuf[k] = vp_u8();
	uint8_t ok = ji.rxbuf[k];
#ifdef SYMCOPY
	w_base = ji.rxbuf; w_k = k;
#endif
	g_c.callback = vp_bool() ? u_cb1 : NULL; g_c.handle = &U;
	diag_l3_rcv_callback(&g_c, &m);
	if (m.fmt & DIAG_FMT_FRAMED) {
		ENSURES("a whole message goes to the user as it is", U.n == (g_c.callback != NULL) && (!U.n || (U.m == &m && U.h == (void *)&U)));
		ENSURES("nothing is buffered", ji.rxoffset == off && ji.rxbuf[k] == ok);
	} else {
		ENSURES("not yet a message", U.n == 0);
		if ((unsigned)off + m.len <= MAXRBUF) {
			ENSURES("data appended", ji.rxoffset == off + (int)m.len);
			ENSURES("buffered data stays, new data follows", IMPLIES(k < (unsigned)off, ji.rxbuf[k] == ok));
			ENSURES("in order", IMPLIES(j >= 255 - m.len && k == (unsigned)off + j - (255 - m.len), ji.rxbuf[k] == d[j]));
			VP_COVER("appended", true);
		} else { ENSURES("too much data is given up", ji.rxoffset == 0); VP_COVER("full", true); }
	}
}
void h_send(void) {
	static struct diag_msg m; static uint8_t d[4];
	m.len = vp_uint(); m.src = vp_u8(); m.dest = vp_u8(); m.data = d;
	struct diag_msg o = m;
	g_c.d_l3l2_conn = &g_l2; g_c.l3_int = &ji; ji.src = vp_u8();
	uint8_t os = ji.src;
	L.rv = vp_okerr();
	int rv = diag_l3_j1979.diag_l3_proto_send(&g_c, &m);
	ENSURES("sent once, the result reported", L.sends == 1 && L.m == &m && L.c == &g_l2 && rv == L.rv);
	ENSURES("unchanged but for a missing source address", m.len == o.len && m.dest == o.dest && m.data == d && m.src == (o.src ? o.src : 0xF1));
	ENSURES("the first source address is remembered", ji.src == (os ? os : m.src));
}
/* start = keep-alive; timer */
void h_start(void) {
	RQ.mode = MODE; RQ.err = vp_err(); RQ.r0 = vp_u8(); j_oom = MODE == 'm';
	int rv = diag_l3_j1979.diag_l3_proto_start(&g_c);
	if (MODE == 'm') { ENSURES("no memory", rv == DIAG_ERR_NOMEM && RQ.n == 0); return; }
	ENSURES("mode 1 PID 0 is requested from the default address", RQ.n == 1 && RQ.len == 2 && RQ.d0 == 1 && RQ.d1 == 0 && RQ.src == 0xF1);
	bool ok = MODE == 'r' && RQ.r0 == 0x41;
	ENSURES("started exactly when the ECU answers mode 1", (rv == 0) == ok && IMPLIES(MODE == 'T', rv == RQ.err) && rv <= 0);
	ENSURES("no message is leaked", ms_nlive == 0);
	ENSURES("the connection's data exists exactly when started", j_live == ok);
	if (ok) { ENSURES("empty", ji.rxoffset == 0); ENSURES("stopped, nothing left", diag_l3_j1979.diag_l3_proto_stop(&g_c) == 0 && !j_live); VP_COVER("started", true); }
}
void h_timer(void) {
	RQ.mode = MODE; RQ.err = vp_err(); RQ.r0 = vp_u8();
	g_c.l3_int = &ji; ji.src = vp_u8(); g_c.d_l3l2_flags = vp_int();
	int d1 = diag_l1_debug = vp_int(), d2 = diag_l2_debug = vp_int();
	unsigned long ms = vp_uint();
	int rv = diag_l3_j1979.diag_l3_proto_timer(&g_c, ms);
	bool due = ms >= 3500 && !(g_c.d_l3l2_flags & DIAG_L2_FLAG_KEEPALIVE);
	ENSURES("kept alive exactly when idle for 3.5 s and L2 does not do it", RQ.n == due);
	if (due) { ENSURES("with mode 1 PID 0 from our address", RQ.len == 2 && RQ.d0 == 1 && RQ.d1 == 0 && RQ.src == (ji.src ? ji.src : 0xF1)); }
	ENSURES("an unanswered keep-alive is an error", (rv == 0) == (!due || (MODE == 'r' && RQ.r0 == 0x41)));
	ENSURES("debug settings are as before, nothing leaked", diag_l1_debug == d1 && diag_l2_debug == d2 && ms_nlive == 0);
	VP_COVER("due", due); VP_COVER("not due", !due);
}
/*
 * receive. Each event is one L2 read:
 *  T time-out, E error; framed session: F/f one message, framed (F) ; unframed: one read delivering
 *  a  41 05 xx          b  44          c  43 + 6 bytes     d  41 05 | e  xx (split)
 *  g  41 05 xx 44 (two messages)   h  44 41 (one and a part)   i  05 xx (rest of h)
 *  z  99 (not J1979)   k  44 99
 */
static uint8_t pay[16]; static unsigned npay;
static struct diag_msg g_m; static uint8_t g_d[8]; static unsigned g_cbs;
int diag_l2_recv(struct diag_l2_conn *c, unsigned tmo, void (*cb)(void *, struct diag_msg *), void *h) {
	VP_CHECK("read from the session", c == &g_l2 && L.ntmo < 8);
	L.tmo[L.ntmo++] = tmo;
	char e = L.pos + 1 < sizeof(ev) ? ev[L.pos++] : 'T';
	if (e == 'T') { return DIAG_ERR_TIMEOUT; }
	if (e == 'E') { L.err = DIAG_ERR_BADDATA; return L.err; }
	unsigned n = 0; uint8_t *d = g_d;
	switch (e) {
	case 'F': d[0] = 0x41; d[1] = vp_u8(); n = 2; break;
	case 'a': d[0] = 0x41; d[1] = 5; d[2] = pay[npay++] = vp_u8(); n = 3; break;
	case 'b': d[0] = 0x44; n = 1; break;
	case 'c': d[0] = 0x43; for (unsigned i = 1; i < 7; i++) { d[i] = pay[npay++] = vp_u8(); } n = 7; break;
	case 'd': d[0] = 0x41; d[1] = 5; n = 2; break;
	case 'e': d[0] = pay[npay++] = vp_u8(); n = 1; break;
	case 'g': d[0] = 0x41; d[1] = 5; d[2] = pay[npay++] = vp_u8(); d[3] = 0x44; n = 4; break;
	case 'h': d[0] = 0x44; d[1] = 0x41; n = 2; break;
	case 'i': d[0] = 5; d[1] = pay[npay++] = vp_u8(); n = 2; break;
	case 'z': d[0] = 0x99; n = 1; break;
	case 'k': d[0] = 0x44; d[1] = 0x99; n = 2; break;
	default: VP_CHECK("known event", false);
	}
	g_m.len = n; g_m.data = d; g_m.next = NULL; g_m.fmt = e == 'F' ? DIAG_FMT_FRAMED : 0; g_m.src = 0x10;
	cb(h, &g_m);
	return 0;
}
#ifndef WANT
#define WANT ""
#endif
/* expected deliveries of successive receives: a: 41 05 x, b: 44, c: 43.., F the framed message, 0 empty (bad data), t time-out, e error, n none (ret 0) */
static const char want[] = WANT;
static unsigned wpay;
static char g_w;
static void u_cb2(void *h, struct diag_msg *m) {
	ENSURES("one message per receive, to the caller's handle", g_cbs == 0 && h == (void *)&U);
	g_cbs++;
	if (g_w == 'F') { ENSURES("the message itself", m == &g_m); return; }
	ENSURES("a single message", m->next == NULL);
	if (g_w == '0') { ENSURES("bad data gives an empty message", m->len == 0); }
	else if (g_w == 'b') { ENSURES("message", m->len == 1 && m->data[0] == 0x44); }
	else if (g_w == 'a') { ENSURES("message", m->len == 3 && m->data[0] == 0x41 && m->data[1] == 5 && m->data[2] == pay[wpay]); wpay++; }
	else if (g_w == 'c') { ENSURES("message", m->len == 7 && m->data[0] == 0x43); for (unsigned i = 1; i < 7; i++) { ENSURES("data in order", m->data[i] == pay[wpay]); wpay++; } }
	else { ENSURES("nothing is delivered without a message", false); }
}
void h_recv(void) {
	g_c.d_l3l2_conn = &g_l2; g_c.l3_int = &ji; g_c.d_l3_proto = &diag_l3_j1979;
#ifdef FRAMED
	g_c.d_l3l2_flags = DIAG_L2_FLAG_FRAMED;
#endif
#ifdef FAILAT
	ms_failat = FAILAT;
#endif
	for (unsigned i = 0; i + 1 < sizeof(want); i++) {
		g_w = want[i]; g_cbs = 0; L.ntmo = 0;
		unsigned t = 100 + i;
		int rv = diag_l3_j1979.diag_l3_proto_recv(&g_c, t, u_cb2, &U);
		bool msg = g_w != 't' && g_w != 'e' && g_w != 'n';
		ENSURES("delivered exactly when a message is complete", g_cbs == msg);
		ENSURES("result", IMPLIES(msg || g_w == 'n', rv == 0) && IMPLIES(g_w == 't', rv == DIAG_ERR_TIMEOUT) && IMPLIES(g_w == 'e', rv == L.err && rv < 0));
#ifdef FRAMED
		ENSURES("one read with the caller's time-out", L.ntmo == 1 && L.tmo[0] == t);
#else
		if (g_w == 't') { ENSURES("the caller's time-out was waited for", L.ntmo >= 2 && L.tmo[1] == t); }
#endif
		ENSURES("delivered messages are released", ms_nlive == (g_c.msg ? 1 + (g_c.msg->next != NULL) : 0));
	}
	ENSURES("all read", L.pos + 1 == sizeof(ev));
	VP_COVER("end", true);
}
/* texts */
#ifndef MSG
#define MSG ,0x44
#define TEXT "J1979 response DTCs cleared"
#endif
void h_decode(void) {
	static const uint8_t mm[] = { 0 MSG };
	static uint8_t d[16]; static struct diag_msg m; static char out[BS];
	m.len = sizeof(mm) - 1; m.data = d + (16 - m.len);
	for (unsigned i = 0; i < m.len; i++) { m.data[i] = mm[i + 1]; }
	diag_l3_j1979.diag_l3_proto_decode(&g_c, &m, out, BS);
	char w[] = TEXT;
	if (sizeof(w) > BS) { w[BS - 1] = 0; }
	ENSURES("the text of this message, cut off at the end of the buffer", tx_eq(out, w, BS));
	VP_COVER("decoded", true);
}
/* any content: inside message and buffer, terminated. SID concrete, rest arbitrary */
void h_decany(void) {
	static uint8_t d[16]; static struct diag_msg m; static char out[BS];
	m.len = LEN; m.data = LEN ? d + (16 - m.len) : NULL;
	for (unsigned i = 0; i < m.len; i++) { m.data[i] = vp_u8(); }
	if (LEN) { m.data[0] = SID0; }
	diag_l3_j1979.diag_l3_proto_decode(&g_c, &m, out, BS);
	ENSURES("a terminated text", tx_len(out, BS) < BS);
}
