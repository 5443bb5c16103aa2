/* C27: what an OBD scan reports. Real code: scantool.c, on scripted responses */
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdarg.h>
#include "diag.h"
#include "diag_os.h"
#include "diag_err.h"
#include "diag_dtc.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_l3.h"
#include "fmt.h"
#include "scantool_cli.h"
#undef printf
#undef fprintf
#undef stderr
#undef stdout
#undef exit
#ifndef EV
#define EV ""
#endif
#ifndef KIND
#define KIND NORMAL
#endif
#ifndef MODE
#define MODE 1
#endif
#ifndef L2P
#define L2P DIAG_L2_PROT_ISO9141
#endif
#ifndef PIDS
#define PIDS
#endif
#ifndef PRINTALL
#define PRINTALL 1
#endif
#ifndef FAILAT
#define FAILAT 0
#endif
#ifndef LEN
#define LEN 4
#endif
#ifndef PIDN
#define PIDN 0
#endif
#ifndef WANT_OK
#define WANT_OK 1
#endif
#ifndef WANT_SENDS
#define WANT_SENDS 1
#endif
#ifndef WANT_TIMERS
#define WANT_TIMERS 0
#endif
#ifndef WANT_BLOCKS
#define WANT_BLOCKS 0
#endif
#ifndef KMODE
#define KMODE 1
#endif
#ifndef KPID
#define KPID 5
#endif
#ifndef KNULL
#define KNULL 0
#endif
#ifndef SUPP
#define SUPP 1
#endif
#ifndef FROM
#define FROM 2
#endif
#ifndef P1
#define P1 0x0c
#endif
#ifndef KP
#define KP P1
#endif
#ifndef KE
#define KE 0
#endif
#ifndef M2
#define M2 (MODE == 2)
#endif
#ifndef NE
#define NE 2
#endif
#define RQ_CAT_(a, b) a##b
#define RQ_CAT(a, b) RQ_CAT_(a, b)
static FILE f_err, f_out;
static struct { unsigned failed, passed, nv, nd, nx, ondt, mil_on, mil_off, notready; int v[40]; double x[8]; uint8_t d0[24], d1[24]; } O;
static bool o_has(const char *s, const char *w) {
	for (unsigned i = 0; s[i]; i++) { if (s[i] == w[0]) { unsigned k = 1; while (w[k] && s[i + k] == w[k]) { k++; } if (!w[k]) { return true; } } }
	return false;
}
static void o_words(const char *s) {
	if (o_has(s, "FAILED")) { O.failed++; }
	if (o_has(s, "Passed")) { O.passed++; }
	if (o_has(s, "light ON")) { O.mil_on++; }
	if (o_has(s, "light OFF")) { O.mil_off++; }
	if (o_has(s, "Not all readiness")) { O.notready++; }
}
/* numbers and words of the output */
static int o_rec(FILE *f, const char *fm, ...) {
	(void)f;
#ifdef WORDS
	va_list ap; va_start(ap, fm);
	o_words(fm);
	for (unsigned i = 0; fm[i]; i++) {
		if (fm[i] != '%') { continue; }
		i++;
		while ((fm[i] >= '0' && fm[i] <= '9') || fm[i] == '.' || fm[i] == '#') { i++; }
		if (fm[i] == 's') { const char *s = va_arg(ap, const char *); if (s[0] == 'F') { O.failed++; } if (s[0] == 'P') { O.passed++; } }
		else if (fm[i] == 'f') { double d = va_arg(ap, double); if (O.nx < 8) { O.x[O.nx++] = d; } }
		else if (fm[i] == 'p') { (void)va_arg(ap, void *); }
		else if (fm[i] != '%') { int v = va_arg(ap, int); if (O.nv < 40) { O.v[O.nv++] = v; } }
	}
	va_end(ap);
#endif
	return 0;
}
#define stderr (&f_err)
#define stdout (&f_out)
#define fprintf(f, ...) o_rec(f, VF_ARGS(__VA_ARGS__))
#define printf(...) o_rec(&f_out, VF_ARGS(__VA_ARGS__))
char *diag_dtc_decode(const uint8_t *d, int l, const char *v, const char *e, enum diag_dtc_protocol p, char *b, const size_t n) {
	VP_CHECK("diag_dtc_decode.pre", l == 2 && p == dtc_proto_j2012 && n >= 6);
	VP_CHECK("unit bound: DTCs", O.nd < 24);
	O.d0[O.nd] = d[0]; O.d1[O.nd] = d[1]; O.nd++;
	b[0] = 'D'; b[1] = 0;
	return b;
}
/* messages (contract proved in C01); data at the very end of their storage */
#define NM 14
#define MC 16
static struct diag_msg m_0, m_1, m_2, m_3, m_4, m_5, m_6, m_7, m_8, m_9, m_10, m_11, m_12, m_13;
static uint8_t mb[NM][MC];
static bool ml[NM]; static unsigned m_cnt, m_try;
static struct diag_msg *mp(unsigned i) {
	switch (i) { case 0: return &m_0; case 1: return &m_1; case 2: return &m_2; case 3: return &m_3; case 4: return &m_4; case 5: return &m_5; case 6: return &m_6;
	case 7: return &m_7; case 8: return &m_8; case 9: return &m_9; case 10: return &m_10; case 11: return &m_11; case 12: return &m_12; default: return &m_13; }
}
static unsigned g_order;
static struct { const struct diag_msg *m; } D_;
struct diag_msg *diag_dupsinglemsg(struct diag_msg *o) {
	if (++m_try == FAILAT) { return NULL; }
	for (unsigned i = 0; i < NM; i++) {
		if (ml[i]) { continue; }
		struct diag_msg *m = mp(i);
		ml[i] = true; m_cnt++;
		m->fmt = o->fmt; m->type = o->type; m->dest = o->dest; m->src = o->src; m->len = o->len; m->next = NULL; m->rxtime = o->rxtime;
		m->data = m->idata = o->len > 0 ? mb[i] + (MC - o->len) : NULL;
		for (unsigned k = 0; k < MC; k++) { if (k < o->len) { m->data[k] = o->data[k]; } }
		return m;
	}
	VP_CHECK("unit bound: messages", false);
	return NULL;
}
void diag_freemsg(struct diag_msg *m) {
	VP_CHECK("diag_freemsg.pre", m != NULL);
	for (unsigned n = 0; n < NM && m != NULL; n++) {
		struct diag_msg *x = m->next; bool ok = false;
		for (unsigned i = 0; i < NM; i++) {
			if (m == mp(i)) { VP_CHECK("diag_freemsg.pre: not freed before", ml[i]); ml[i] = false; m_cnt--; ok = true; m->data = NULL; m->len = 77; break; }
		}
		VP_CHECK("diag_freemsg.pre: an allocated message", ok);
		m = x;
	}
	VP_CHECK("diag_freemsg.pre: the chain is finite", m == NULL);
}
/* the session below */
static struct diag_l3_conn g_c3; static struct diag_l3_proto g_p3; static struct diag_l2_conn g_c2; static struct diag_l2_proto g_p2;
static uint8_t g_mode; static int g_rv;
#define REQS 20
static struct { unsigned sends, recvs, timers; int pend, timer_rv; uint8_t len[REQS], d[REQS][8]; bool failed; } R;
static const char ev[] = EV;
static unsigned e_pos;
/* responses of a request, up to ';':  s the request cannot be sent; E no answer, T/t keep-alive then succeeds / fails; else messages
 * <ecu a..j><G good, N negative, O of another service, P of another PID, D good with 2 DTCs and the MIL on, F last byte 1, Z zeros, T DTCs, U no DTC and DTCs, C/L supported-PID mask with/without the next block><length> */
static struct diag_msg r_m[12]; static uint8_t r_b[12][16]; static unsigned r_n;
static unsigned r_round0, k_n; static struct { uint8_t src, len, b[16]; } K[16];       /* messages of the last answer */
static bool e_first(char c) { return ev[e_pos] == c; }
static void e_next(void) { while (ev[e_pos] && ev[e_pos] != ';') { e_pos++; } if (ev[e_pos]) { e_pos++; } }
static uint8_t g_p1;
static struct diag_msg *e_chain(void) {
	r_n = 0;
	while (ev[e_pos] && ev[e_pos] != ';') {
		VP_CHECK("unit bound: messages of an answer", r_n < 12);
		struct diag_msg *m = &r_m[r_n];
		char c = ev[e_pos], k = ev[e_pos + 1], l = ev[e_pos + 2];
		unsigned len = (unsigned)(l <= '9' ? l - '0' : l - 'a' + 10);
		VP_BYTES(r_b[r_n], 16);
		uint8_t *b = r_b[r_n] + (16 - len);
		if (len > 0) { if (k == 'N') { b[0] = 0x7f; } else if (k == 'O') { VP_ASSUME(b[0] != 0x7f && b[0] != (uint8_t)(g_mode + 0x40)); } else { b[0] = (uint8_t)(g_mode + 0x40); } }
		if (len > 1 && k != 'P') { if (k == 'N') { b[1] = g_mode; } else if (k != 'O') { b[1] = g_p1; } }
		if (len > 1 && k == 'P') { VP_ASSUME(b[1] != g_p1); }
		if (k == 'D' && len > 2) { b[2] = 0x82; }
		if (k == 'F') { b[len - 2] = 0; b[len - 1] = 1; }
		if (k == 'Z') { for (unsigned i = 2; i < len; i++) { b[i] = 0; } }
		if (k == 'T' || k == 'U') { for (unsigned i = 1; i < len; i += 2) { b[i] = (uint8_t)(0x11 * i + 1); } }
		if (k == 'U') { b[1] = 0; if (len > 2) { b[2] = 0; } }
		if (k == 'C') { b[len - 1] |= 1; }
		if (k == 'L') { b[len - 1] &= 0xfe; }
		m->src = (uint8_t)(0x10 + (c - 'a') * 7); m->dest = 0xf1; m->len = len; m->data = len ? b : NULL; m->idata = m->data; m->next = NULL; m->fmt = 0; m->type = 0; m->rxtime = 5;
		K[r_n].src = m->src; K[r_n].len = (uint8_t)len;
		for (unsigned i = 0; i < 16; i++) { if (i < len) { K[r_n].b[i] = b[i]; } }
		if (r_n > 0) { r_m[r_n - 1].next = m; }
		r_n++;
		e_pos += 3;
	}
	if (ev[e_pos]) { e_pos++; }
	return r_n > 0 ? &r_m[0] : NULL;
}
static void e_poison(void) {
	for (unsigned i = 0; i < r_n; i++) { r_m[i].data = NULL; r_m[i].next = NULL; r_m[i].src = 0xee; }
}
int diag_l3_send(struct diag_l3_conn *c, struct diag_msg *m) {
	VP_CHECK("diag_l3_send.pre", c == &g_c3 && m != NULL && m->len >= 1 && m->len <= 7 && VP_R_OK(m->data, m->len) && m->next == NULL);
	VP_CHECK("addressed as configured", m->src == global_cfg.src && m->dest == global_cfg.tgt);
	VP_CHECK("unit bound: requests", R.sends < REQS);
	unsigned i = R.sends < REQS ? R.sends : 0;
	R.len[i] = (uint8_t)m->len;
	for (unsigned k = 0; k < 7; k++) { R.d[i][k] = k < m->len ? m->data[k] : 0; }
	R.sends++; R.pend++;
	if (e_first('s')) { e_next(); R.pend--; R.failed = true; return DIAG_ERR_GENERAL; }
	g_mode = R.d[i][0]; g_p1 = m->len > 1 ? R.d[i][1] : 0;
	return 0;
}
int diag_l3_recv(struct diag_l3_conn *c, unsigned tout, void (*cb)(void *, struct diag_msg *), void *h) {
	VP_CHECK("diag_l3_recv.pre", c == &g_c3 && cb != NULL && tout > 0);
	VP_CHECK("one answer per request", R.pend == 1);
	R.pend--; R.recvs++;
	if (e_first('E')) { R.timer_rv = ev[e_pos + 1] == 't' ? DIAG_ERR_GENERAL : 0; e_next(); return DIAG_ERR_TIMEOUT; }
	if (ev[e_pos] == 0) { return DIAG_ERR_TIMEOUT; }
	struct diag_msg *m = e_chain();
	if (m == NULL) { return 0; }
	cb(h, m);
	e_poison();
	return 0;
}
static int g_timer(struct diag_l3_conn *c, unsigned long ms) {
	VP_CHECK("timer.pre", c == &g_c3);
	R.timers++;
	return R.timer_rv;
}
int diag_os_ipending(void) { return 0; }
void diag_printmsg(FILE *f, struct diag_msg *m, bool t) { }
void diag_printmsg_header(FILE *f, struct diag_msg *m, bool t, int n) { }
void diag_data_dump(FILE *f, const void *d, size_t n) { }
int diag_cli_debug;
void *diag_p_pseterr(const char *n, const int l, const int c) { return NULL; }
int diag_p_iseterr(const char *n, const int l, const int c) { return c; }
void *diag_p_pfwderr(const char *n, const int l, const int c) { return NULL; }
int diag_p_ifwderr(const char *n, const int l, const int c) { return c; }
struct diag_l2_conn *global_l2_conn; struct diag_l3_conn *global_l3_conn; enum globstate global_state; struct diag_l0_device *global_dl0d; const char *progname;
struct globcfg global_cfg;
/* the stored value of PID entry PIDN, shown */
static double s_v[3]; static unsigned s_n; static const char *s_f; static size_t s_sz;
static int s_rec(char *b, size_t n, const char *f, ...) {
	s_f = f; s_n = 0; s_sz = n;
	va_list ap; va_start(ap, f);
	for (unsigned i = 0; f[i]; i++) {
		if (f[i] != '%') { continue; }
		i++;
		while ((f[i] >= '0' && f[i] <= '9') || f[i] == '.') { i++; }
		if (f[i] == 'f') { if (s_n < 3) { s_v[s_n++] = va_arg(ap, double); } }
	}
	va_end(ap);
	return 0;
}
#undef snprintf
#define snprintf(b, n, ...) s_rec(b, n, VF_ARGS(__VA_ARGS__))
#define main scantool_main
#include "scantool.c"
#undef main
#undef exit
#ifdef PROTO_STUB
#endif
static int k_handle = RQST_HANDLE_NORMAL;
static void setup(void) {
	g_p2.diag_l2_protocol = L2P; g_c2.l2proto = &g_p2; g_c3.d_l3l2_conn = &g_c2; g_c3.d_l3_proto = &g_p3; g_p3.diag_l3_proto_timer = g_timer;
#ifdef NOTIMER
	g_p3.diag_l3_proto_timer = NULL;
#endif
	global_cfg.src = vp_u8(); global_cfg.tgt = vp_u8();
	global_l3_conn = &g_c3; global_state = STATE_SCANDONE;
}
/* every ECU is known once, by its address */
static void check_table(void) {
	VP_CHECK("at most 8 ECUs", ecu_count <= MAX_ECU);
	for (unsigned i = 0; i < MAX_ECU; i++) {
		VP_CHECK("the known ECUs are the first ones", (ecu_info[i].valid != 0) == (i < ecu_count));
		VP_CHECK("no response of an unknown ECU", ecu_info[i].valid || ecu_info[i].rxmsg == NULL);
		for (unsigned k = 0; k < i; k++) { VP_CHECK("an ECU is listed once", i >= ecu_count || ecu_info[i].ecu_addr != ecu_info[k].ecu_addr); }
	}
}
/* the responses kept for every ECU are exactly its messages of the last answer, in order; n: messages looked at */
static void check_kept(unsigned n) {
	unsigned total = 0;
	for (unsigned e = 0; e < ecu_count && e < MAX_ECU; e++) {
		struct diag_msg *m = ecu_info[e].rxmsg;
		for (unsigned i = 0; i < n; i++) {
			if (K[i].src != ecu_info[e].ecu_addr) { continue; }
			VP_CHECK("every response is kept with its ECU, in order", m != NULL);
			if (m == NULL) { break; }
			VP_CHECK("the response as received", m->len == K[i].len && m->src == K[i].src);
			for (unsigned b = 0; b < 16; b++) { if (b < K[i].len) { VP_CHECK("the data as received", m->data[b] == K[i].b[b]); } }
			m = m->next; total++;
		}
		VP_CHECK("no other response is kept with the ECU", m == NULL);
	}
	VP_CHECK("old responses are released, none is lost", m_cnt == total);
}
void h_pid(void) {
	uint8_t d[4]; VP_BYTES(d, 4);
	int pid = vp_int();
	REQUIRES(pid >= 1 && pid <= 256);
	int r = l2_check_pid_bits(d, pid);
	unsigned bit = ((unsigned)pid - 1) & 31;
	ENSURES("the bit of the PID in the mask", (r != 0) == (((d[bit >> 3] >> (7 - (bit & 7))) & 1) != 0));
	VP_COVER("set", r != 0);
}
void h_find(void) {
	static uint8_t b[MAX_ECU][4];
	static struct diag_msg *mm[MAX_ECU];
	setup();
	unsigned n = vp_uint(); REQUIRES(n <= MAX_ECU);
	ecu_count = n;
	for (unsigned i = 0; i < MAX_ECU; i++) {
		VP_BYTES(b[i], 4);
		struct diag_msg *m = mp(i);
		m->len = vp_uint(); REQUIRES(m->len <= 4);
		m->data = b[i] + (4 - m->len);
		ecu_info[i].rxmsg = mm[i] = vp_bool() ? m : NULL;
	}
	int byte = vp_int(); uint8_t val = vp_u8(); REQUIRES(byte >= 0 && byte < 8);
	struct diag_msg *r = find_ecu_msg(byte, val);
	struct diag_msg *w = NULL;
	for (unsigned i = 0; i < MAX_ECU; i++) {
		if (w == NULL && i < n && mm[i] != NULL && (unsigned)byte < mm[i]->len && mm[i]->data[byte] == val) { w = mm[i]; }
	}
	ENSURES("the first ECU whose response has the byte", r == w);
	VP_COVER("found", r != NULL);
}
/* responses of several rounds, handled as KIND */
void h_rcv(void) {
	setup();
	k_handle = RQST_HANDLE_NORMAL;
	int handle = RQ_CAT(RQST_HANDLE_, KIND);
	g_mode = KMODE; g_p1 = KPID;
	unsigned known = 0; uint8_t addr[MAX_ECU];
	while (ev[e_pos]) {
		struct diag_msg *m = e_chain();
		O.failed = O.passed = 0; O.nv = 0; O.nx = 0;
		j1979_data_rcv(KNULL ? NULL : &handle, m);
		e_poison();
		/* who is known: first come, first listed */
		for (unsigned i = 0; i < r_n; i++) {
			bool f = false;
			for (unsigned k = 0; k < known; k++) { if (addr[k] == K[i].src) { f = true; } }
			if (!f && known < MAX_ECU) { addr[known++] = K[i].src; }
		}
		VP_CHECK("every ECU that answered is counted, once", ecu_count == known);
		for (unsigned k = 0; k < known; k++) { VP_CHECK("ECUs in the order of their first response", ecu_info[k].ecu_addr == addr[k]); }
		check_table();
		check_kept(r_n);
		if (handle == RQST_HANDLE_NCMS || handle == RQST_HANDLE_NCMS2) {
			unsigned wf = 0, wp = 0; bool odd = false;
			for (unsigned i = 0; i < r_n; i++) {
				const uint8_t *d = K[i].b;
				if (K[i].len < 7 || d[0] != 0x46 || (d[1] & 0x1f) == 0) { continue; }
				unsigned val = d[3] * 256u + d[4], lim = d[5] * 256u + d[6];
				bool fail = (d[2] & 0x80) ? val < lim : val > lim;
				/* known finding: the numbers are weighted by 255 */
				int v5 = d[3] * 255 + d[4], l5 = d[5] * 255 + d[6];
#ifndef EXACT
				VP_ASSUME(((d[2] & 0x80) ? v5 < l5 : v5 > l5) == fail);
#endif
				if (fail) { wf++; } else { wp++; }
			}
			VP_CHECK("known: tests out of their limits are reported as failed, the others are not", O.failed == wf);
			if (handle == RQST_HANDLE_NCMS) { VP_CHECK("known: passed tests are reported when all are wanted", O.passed == wp); }
			else { VP_CHECK("only failures are reported", O.passed == 0); }
			(void)odd;
#ifdef NCMSCOV
			VP_COVER("a failed test", wf > 0);
#endif
		} else if (handle == RQST_HANDLE_O2S) {
			unsigned wf = 0, wp = 0;
			for (unsigned i = 0; i < r_n; i++) {
				const uint8_t *d = K[i].b;
				if (K[i].len < 7 || d[0] != 0x45 || (d[1] & 0x1f) == 0 || (d[1] >= 1 && d[1] <= 4)) { continue; }
				if (d[4] < d[5] || d[4] > d[6]) { wf++; } else { wp++; }
			}
			VP_CHECK("oxygen sensor tests out of their limits are reported as failed", O.failed == wf && O.passed == wp);
		} else {
			VP_CHECK("other responses have no verdict", O.failed == 0 && O.passed == 0);
		}
	}
}
/* running out of memory: no response is attributed to another ECU, none leaks */
void h_rcvoom(void) {
	setup();
	int handle = RQST_HANDLE_NORMAL;
	g_mode = 1; g_p1 = 5;
	while (ev[e_pos]) {
		struct diag_msg *m = e_chain();
		j1979_data_rcv(&handle, m);
		e_poison();
		check_table();
		unsigned total = 0;
		for (unsigned e = 0; e < MAX_ECU; e++) {
			struct diag_msg *x = ecu_info[e].rxmsg;
			for (unsigned c = 0; c < NM && x != NULL; c++) { VP_CHECK("a kept response is of its ECU", x->src == ecu_info[e].ecu_addr); total++; x = x->next; }
		}
		VP_CHECK("no message leaks", m_cnt == total);
	}
}
static const uint8_t j_len[] = { 0, 2, 3, 1, 1, 3, 2, 1, 7, 2 };
/* one request of mode MODE */
void h_rqst(void) {
	setup();
	uint8_t p1 = P1, p2 = vp_u8(), p3 = vp_u8(), p4 = vp_u8(), p5 = vp_u8(), p6 = vp_u8();
	int handle = RQ_CAT(RQST_HANDLE_, KIND);
	unsigned k = KP, e = KE; bool m2 = M2;
	response *w = m2 ? &ecu_info[e].mode2_data[k] : &ecu_info[e].mode1_data[k];
	VP_BYTES(w->data, 7); w->type = vp_u8(); w->len = vp_u8();
	response old = *w;
	int r = l3_do_j1979_rqst(&g_c3, MODE, p1, p2, p3, p4, p5, p6, KNULL ? NULL : &handle);
	if (MODE > 9 || j_len[MODE <= 9 ? MODE : 0] == 0) { VP_CHECK("an unknown service is refused, nothing is sent", r < 0 && R.sends == 0); return; }
	uint8_t q[7]; q[0] = MODE; q[1] = p1; q[2] = p2; q[3] = p3; q[4] = p4; q[5] = p5; q[6] = p6;
	VP_CHECK("sent, and at most one retry", R.sends >= 1 && R.sends <= 2);
	for (unsigned i = 0; i < 2; i++) {
		if (i >= R.sends) { continue; }
		VP_CHECK("the request of the service has its length", R.len[i] == j_len[MODE <= 9 ? MODE : 0]);
		for (unsigned b = 0; b < 7; b++) { if (b < R.len[i]) { VP_CHECK("the request is service and parameters", R.d[i][b] == q[b]); } }
	}
	bool asked = R.recvs > 0 && !R.failed, answered = WANT_OK;
	VP_CHECK("success exactly if there was an answer", answered ? (r == 0 || r == DIAG_ERR_ECUSAIDNO) : r < 0);
	VP_CHECK("a retry exactly after no answer", R.sends == WANT_SENDS && R.timers == WANT_TIMERS);
	(void)asked;
	bool neg = false, watch = handle == RQST_HANDLE_WATCH || handle == RQST_HANDLE_DECODE;
	check_table();
	if (answered && !watch) {
		check_kept(r_n);
		/* the first response of each ECU, up to a negative one with ISO14230 */
		bool stored = false, failed = false; const uint8_t *d = NULL; unsigned len = 0;
		for (unsigned c = 0; c < ecu_count && c < MAX_ECU; c++) {
			unsigned i = 0;
			while (i < r_n && K[i].src != ecu_info[c].ecu_addr) { i++; }
			if (i >= r_n || K[i].len < 1) { continue; }
			if (L2P == DIAG_L2_PROT_ISO14230 && K[i].b[0] == 0x7f) { neg = true; break; }
			if (c == e && p1 == k && (m2 ? MODE == 2 : MODE == 1)) {
				if (K[i].b[0] == MODE + 0x40 && K[i].len >= 2 && K[i].b[1] == p1) { stored = true; d = K[i].b; len = K[i].len; } else { failed = true; }
			}
		}
		VP_CHECK("a refusal is reported", neg == (r == DIAG_ERR_ECUSAIDNO));
		if (stored) {
			VP_CHECK("a good response is kept as the value of its PID and ECU", w->type == TYPE_GOOD && w->len == (len < 7 ? len : 7));
			for (unsigned b = 0; b < 7; b++) { VP_CHECK("the bytes the ECU sent, 0 beyond", w->data[b] == (b < len ? d[b] : 0)); }
		} else if (failed) {
			VP_CHECK("another response is no value", w->type == TYPE_FAILED);
		} else {
			VP_CHECK("the values of other PIDs and ECUs are not changed", w->type == old.type && w->len == old.len && w->data[0] == old.data[0] && w->data[1] == old.data[1] && w->data[2] == old.data[2] && w->data[3] == old.data[3] && w->data[4] == old.data[4] && w->data[5] == old.data[5] && w->data[6] == old.data[6]);
		}
	} else {
		VP_CHECK("no answer, no value", w->type == old.type && w->len == old.len && w->data[2] == old.data[2] && w->data[6] == old.data[6]);
	}
}
/* supported PIDs of MODE */
#ifndef OFF
#define OFF 2
#endif
static uint8_t *info_of(ecu_data *e) { return MODE == 1 ? e->mode1_info : MODE == 2 ? e->mode2_info : MODE == 5 ? e->mode5_info : MODE == 6 ? e->mode6_info : MODE == 8 ? e->mode8_info : e->mode9_info; }
static const char ev0[] = EV;
void h_info(void) {
	setup();
	static uint8_t want[2][256]; static uint8_t mask[2][8][4]; static bool got[2][8];
	do_j1979_getmodeinfo(MODE, OFF);
	VP_CHECK("as many blocks as the ECUs have, none is asked for again", R.sends == WANT_SENDS);
	for (unsigned i = 0; i < REQS; i++) {
		if (i < R.sends && i < WANT_BLOCKS) { VP_CHECK("block by block", R.d[i][0] == MODE && R.d[i][1] == (uint8_t)(i * 0x20) && (R.len[i] < 3 || R.d[i][2] == 0)); }
	}
	(void)want; (void)mask; (void)got;
	check_table();
}
/* supported PIDs of a single block, all masks */
void h_block(void) {
	setup();
#ifdef KSYM
	unsigned k = vp_uint(); REQUIRES(k < 256);
#else
	unsigned k = KP;
#endif
#ifdef DIRECT
	do_j1979_getmodeinfo(MODE, OFF);
#else
	do_j1979_getpids();
#endif
	for (unsigned e = 0; e < MAX_ECU; e++) {
		if (e >= ecu_count) { break; }
		unsigned i = 0;
		while (i < r_n && K[i].src != ecu_info[e].ecu_addr) { i++; }
		bool good = i < r_n && K[i].len >= OFF + 4 && K[i].b[0] == MODE + 0x40;
		bool want = good && (k == 0 || (k <= 0x20 && ((K[i].b[OFF + ((k - 1) >> 3)] >> (7 - ((k - 1) & 7))) & 1)));
		VP_CHECK("a PID is supported exactly if the ECU says so", (info_of(&ecu_info[e])[k] != 0) == want);
	}
	for (unsigned e = 0; e < MAX_ECU; e++) { if (e >= ecu_count) { VP_CHECK("nothing about other ECUs", info_of(&ecu_info[e])[k] == 0); } }
	if (MODE != 1) { VP_CHECK("nothing about other services", ecu_info[0].mode1_info[k] == 0); }
	if (MODE != 2) { VP_CHECK("nothing about other services", ecu_info[0].mode2_info[k] == 0); }
	if (MODE != 5) { VP_CHECK("nothing about other services", ecu_info[0].mode5_info[k] == 0); }
	if (MODE != 6) { VP_CHECK("nothing about other services", ecu_info[0].mode6_info[k] == 0); }
	if (MODE != 8) { VP_CHECK("nothing about other services", ecu_info[0].mode8_info[k] == 0); }
	if (MODE != 9) { VP_CHECK("nothing about other services", ecu_info[0].mode9_info[k] == 0); }
}
static const uint8_t pids_c[] = { PIDS 0 };
#define NPIDS (sizeof(pids_c) - 1)
/* all supported PIDs, merged */
void h_merge(void) {
	setup();
	unsigned k = KP;
	ecu_count = NE;
	uint8_t w1 = 0, w5 = 0;
	for (unsigned e = 0; e < MAX_ECU; e++) {
		ecu_info[e].valid = e < ecu_count; ecu_info[e].ecu_addr = (uint8_t)e;
		uint8_t a = vp_u8(), b = vp_u8();
		REQUIRES(e < ecu_count || (a == 0 && b == 0));
		ecu_info[e].mode1_info[k] = a; ecu_info[e].mode5_info[k] = b;
		w1 |= a; w5 |= b;
	}
	merged_mode1_info[k] = vp_u8(); merged_mode5_info[k] = vp_u8();
	do_j1979_getpids();
	VP_CHECK("a PID is supported if an ECU supports it", (merged_mode1_info[k] != 0) == (w1 != 0) && (merged_mode5_info[k] != 0) == (w5 != 0));
	static const uint8_t modes[] = { 1, 2, 5, 6, 8, 9 };
	VP_CHECK("every service is explored", R.sends == 12);
	for (unsigned i = 0; i < 12; i++) { VP_CHECK("every service is explored, from block 0", R.d[i][0] == modes[i / 2] && R.d[i][1] == 0); }
}
/* the MIL, the number of DTCs and the DTCs; WANT_*: see props.py */
static unsigned want_dtcs(uint8_t sid, uint8_t *w0, uint8_t *w1) {
	unsigned n = 0;
	for (unsigned e = 0; e < ecu_count && e < MAX_ECU; e++) {
		for (unsigned i = 0; i < r_n; i++) {
			if (K[i].src != ecu_info[e].ecu_addr || K[i].len < 1 || K[i].b[0] != sid) { continue; }
			for (unsigned j = 1; j < 7; j += 2) { if (j + 1 < K[i].len && (K[i].b[j] || K[i].b[j + 1])) { w0[n] = K[i].b[j]; w1[n] = K[i].b[j + 1]; n++; } }
		}
	}
	return n;
}
static void check_dtcs(uint8_t sid) {
	uint8_t w0[24], w1[24];
	unsigned n = want_dtcs(sid, w0, w1);
	VP_CHECK("as many DTCs as the ECUs sent", O.nd == n);
	for (unsigned i = 0; i < 24; i++) { if (i < n) { VP_CHECK("the DTCs the ECUs sent, in order", O.d0[i] == w0[i] && O.d1[i] == w1[i]); } }
	VP_COVER("a DTC", n > 0);
}
void h_dtcs(void) {
	setup();
	merged_mode1_info[1] = SUPP;
	ecu_info[0].mode1_data[1].data[2] = 0xff; ecu_info[0].mode1_data[1].type = TYPE_GOOD;
	/* first answer, looked at beforehand */
	int r = do_j1979_getdtcs();
	if (!SUPP) { VP_CHECK("not asked for when not supported", R.sends == 0 && O.mil_on == 0 && O.mil_off == 0); return; }
	VP_CHECK("the status is asked for", R.sends >= 1 && R.len[0] == 2 && R.d[0][0] == 1 && R.d[0][1] == 1);
#ifdef WANT_DTCS
	VP_CHECK("the DTCs are asked for", R.sends == 2 && R.len[1] == 1 && R.d[1][0] == 3);
	check_dtcs(0x43);
	VP_CHECK("result", r == (WANT_DTCS ? 0 : -1));
#endif
}
/* status of a single answer */
void h_status(void) {
	setup();
	merged_mode1_info[1] = 1;
	int r = do_j1979_getdtcs();
	bool mil = false, rd = false; int n = 0; bool any = false, good = false;
	for (unsigned e = 0; e < ecu_count && e < MAX_ECU; e++) {
		unsigned i = 0;
		while (i < r_n && K[i].src != ecu_info[e].ecu_addr) { i++; }
		if (i >= r_n || K[i].len < 1) { continue; }
		if (K[i].b[0] == 0x41) { any = true; }
		if (K[i].len < 6 || K[i].b[0] != 0x41 || K[i].b[1] != 1) { continue; }
		const uint8_t *d = K[i].b; good = true;
		if (d[2] & 0x80) { mil = true; }
		n += d[2] & 0x7f;
		if ((d[3] & 0xf0) || d[5]) { rd = true; }
	}
	if (!any) { VP_CHECK("no status, no report", r < 0 && O.mil_on == 0 && O.mil_off == 0); return; }
	VP_CHECK("the MIL is on exactly if an ECU says so", O.mil_on == (mil ? 1u : 0u) && O.mil_off == (mil ? 0u : 1u));
	VP_CHECK("incomplete readiness tests are reported exactly if an ECU says so", O.notready == (rd ? 1u : 0u));
	VP_CHECK("the number of DTCs is the sum over the ECUs", O.nv >= 1 && O.v[0] == n);
	VP_CHECK("DTCs are asked for exactly if there are any", (R.sends > 1) == (n > 0));
	if (R.sends > 1) { VP_CHECK("service 3", R.len[1] == 1 && R.d[1][0] == 3); }
	VP_COVER("MIL", mil); (void)good;
}
void h_cms(void) {
	setup();
	do_j1979_cms();
	VP_CHECK("service 7", R.sends >= 1 && R.len[0] == 1 && R.d[0][0] == 7);
	if (WANT_OK) { check_dtcs(0x47); } else { VP_CHECK("no answer, no DTC", O.nd == 0); }
}
void h_o2(void) {
	setup();
	global_O2_sensors = vp_u8();
	(void)do_j1979_getO2sensors();
	VP_CHECK("PID 0x13", R.sends >= 1 && R.len[0] == 2 && R.d[0][0] == 1 && R.d[0][1] == 0x13);
	uint8_t w = 0; int n = 0; bool any = false;
	for (unsigned e = 0; WANT_OK && e < ecu_count && e < MAX_ECU; e++) {
		unsigned i = 0;
		while (i < r_n && K[i].src != ecu_info[e].ecu_addr) { i++; }
		if (i >= r_n || K[i].len < 1 || K[i].b[0] != 0x41) { continue; }
		any = true;
		if (K[i].len < 3) { continue; }
		w |= K[i].b[2];
		for (unsigned j = 0; j < 8; j++) { n += (K[i].b[2] >> j) & 1; }
	}
	VP_CHECK("the sensors of all ECUs", global_O2_sensors == w);
	if (any) { VP_CHECK("their number", O.nv >= 1 && O.v[0] == n); }
}
void h_clear(void) {
	setup();
	int r = diag_cleardtc();
	VP_CHECK("service 4", R.sends >= 1 && R.len[0] == 1 && R.d[0][0] == 4);
	bool ack = false;
	for (unsigned e = 0; WANT_OK && e < ecu_count && e < MAX_ECU; e++) {
		unsigned i = 0;
		while (i < r_n && K[i].src != ecu_info[e].ecu_addr) { i++; }
		if (i < r_n && K[i].len >= 1 && K[i].b[0] == 0x44) { ack = true; }
	}
	VP_CHECK("the DTCs are reported as cleared only if an ECU confirms", r != 0 || ack);
	if (ack && L2P != DIAG_L2_PROT_ISO14230) { VP_CHECK("a confirmation is success", r == 0); }
}
/* which requests are made: PIDS lists those supported */
void h_reqs(void) {
	setup();
	ecu_count = 2; ecu_info[0].valid = ecu_info[1].valid = 1; ecu_info[0].ecu_addr = 0x10; ecu_info[1].ecu_addr = 0x17;
	for (unsigned i = 0; i < NPIDS; i++) {
		merged_mode1_info[pids_c[i]] = 1; merged_mode5_info[pids_c[i]] = 1;
		ecu_info[i & 1].mode6_info[pids_c[i]] = 1; ecu_info[1].mode2_info[pids_c[i]] = 1;
	}
	unsigned n = 0;
#define NEXT(M, P, T) do { VP_CHECK("the next supported one is asked for", n < R.sends && R.d[n][0] == (M) && R.d[n][1] == (P)); T; n++; } while (0)
#if MODE == 6
	do_j1979_ncms(PRINTALL);
	for (unsigned i = 0; i < NPIDS; i++) { if (pids_c[i] < 60 && (pids_c[i] & 0x1f)) { NEXT(6, pids_c[i], ); } }
#elif MODE == 5
	do_j1979_getO2tests(PIDN);
	for (unsigned i = 0; i < NPIDS; i++) { if (pids_c[i] <= 0x1f && pids_c[i] > 0) { NEXT(5, pids_c[i], VP_CHECK("the sensor", R.d[n][2] == (1 << PIDN))); } }
#elif MODE == 55
	global_O2_sensors = PIDN;
	do_j1979_O2tests();
	for (unsigned s = 0; s < 8; s++) { if (PIDN & (1 << s)) { for (unsigned i = 0; i < NPIDS; i++) { if (pids_c[i] <= 0x1f && pids_c[i] > 0) { NEXT(5, pids_c[i], VP_CHECK("the sensor", R.d[n][2] == (1 << s))); } } } }
#else
	int r = do_j1979_getdata(0);
	for (unsigned i = 0; i < NPIDS; i++) { if (pids_c[i] >= 3) { NEXT(1, pids_c[i], ); } }
	NEXT(2, 2, );
	if (WANT_OK) { for (unsigned i = 0; i < NPIDS; i++) { if (pids_c[i] >= 3) { NEXT(2, pids_c[i], ); } } }
	VP_CHECK("result", r == 0);
#endif
	VP_CHECK("nothing else is asked for", n == R.sends);
	check_table();
}

/* J1979: value of a PID, metric and english */
static bool j_val(int pid, unsigned a, unsigned b, double *m, const char **mu, double *e, const char **eu) {
	*eu = NULL; *e = 0;
	switch (pid) {
	case 0x04: case 0x11: *m = a * 100.0 / 255; *mu = "%%"; return true;
	case 0x05: case 0x0f: *m = (double)a - 40; *mu = "C"; *e = *m * 9 / 5 + 32; *eu = "F"; return true;
	case 0x06: case 0x07: case 0x08: case 0x09: *m = ((double)a - 128) * 100 / 128; *mu = "%%"; return true;
	case 0x0a: *m = a * 3.0; *mu = "kPaG"; *e = *m * 0.1450377; *eu = "psig"; return true;
	case 0x0b: *m = a; *mu = "kPaA"; *e = *m * 0.2952998; *eu = "inHg"; return true;
	case 0x0c: *m = (a * 256 + b) / 4.0; *mu = "RPM"; return true;
	case 0x0d: *m = a; *mu = "km/h"; *e = *m * 0.6213712; *eu = "mph"; return true;
	case 0x0e: *m = (double)a / 2 - 64; *mu = "deg"; return true;
	case 0x10: *m = (a * 256 + b) / 100.0; *mu = "gm/s"; *e = *m * 0.1322774; *eu = "lb/min"; return true;
	default: return false;
	}
}
static bool near(double x, double y) { double d = x - y; return d < 0.001 && d > -0.001; }
void h_fmt(void) {
	const struct pid *p = NULL;
	for (unsigned i = 0; i < 64; i++) {
		const struct pid *q = get_pid(i);
		if (q == NULL) { break; }
		if (q->pidID == PIDN) { VP_CHECK("a PID is listed once", p == NULL); p = q; }
	}
	VP_CHECK("the PID can be shown", p != NULL);
	if (p == NULL) { return; }
	static response rr[40]; response *r = rr;
	char buf[24];
	r[PIDN].type = TYPE_GOOD; r[PIDN].len = 6;
	static const uint8_t raw_v[] = {
#if PIDN == 3
		0, 1, 2, 3, 4, 8, 16, 32, 255 };
#else
		0, 1, 100, 127, 128, 255 };
#endif
	for (unsigned ai = 0; ai < sizeof(raw_v); ai++) {
		unsigned a = raw_v[ai];
		for (unsigned bi = 0; bi < (PIDN == 0x0c || PIDN == 0x10 || PIDN >= 0x14 ? 3 : 1); bi++) {
			unsigned b = bi == 0 ? 0 : bi == 1 ? 127 : 255;
			r[PIDN].data[FROM] = (uint8_t)a; r[PIDN].data[FROM + 1] = (uint8_t)b;
			for (int eng = 0; eng < 2; eng++) {
				double m, e; const char *mu, *eu;
				s_f = NULL;
				p->cust_snprintf(buf, sizeof(buf), eng, p, r, FROM);
				VP_CHECK("into the buffer", s_f != NULL && s_sz == sizeof(buf));
				if (s_f == NULL) { return; }
				if (j_val(PIDN, a, b, &m, &mu, &e, &eu)) {
					if (eng && eu != NULL) { VP_CHECK("the value in english units", s_n == 1 && near(s_v[0], e) && (a > 1 || o_has(s_f, eu))); }
					else { VP_CHECK("the value in metric units", s_n == 1 && near(s_v[0], m) && (a > 1 || o_has(s_f, mu))); }
				} else if (PIDN >= 0x14 && PIDN <= 0x1b) {
					VP_CHECK("voltage", s_n >= 1 && near(s_v[0], a / 200.0) && (a > 1 || o_has(s_f, "V")));
					VP_CHECK("trim, if the sensor takes part in it", b == 255 ? s_n == 1 : s_n == 2 && near(s_v[1], ((double)b - 128) * 100 / 128));
				} else if (PIDN == 3) {
					const char *w = a == 1 ? "Open" : a == 2 ? "Closed" : a == 4 ? "Open-Driving" : a == 8 ? "Open-Fault" : a == 16 ? "Closed-Fault" : "Open(rsvd)";
					unsigned i = 0; while (w[i] && s_f[i] == w[i]) { i++; }
					VP_CHECK("fuel system status", w[i] == 0 && s_f[i] == 0);
				} else if (PIDN == 0x1e) {
					VP_CHECK("auxiliary input", o_has(s_f, "PTO") == ((a & 1) != 0));
				}
			}
		}
	}
}
#ifndef NSEND
#define NSEND 4
#endif
