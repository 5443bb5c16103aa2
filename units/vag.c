/* C10: KWP1281 (VAG): blocks, telegrams, requests, session. Real code: diag_l2_vag.c */
#ifndef SLOTCAP
#define SLOTCAP 16
#endif
#ifndef NSLOTS
#define NSLOTS 8
#endif
#define STUBS_NO_MS
#include "stubs_l1.h"
#include "msgstub.h"
static void *vp_bytecopy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) { ((uint8_t *)d)[i] = ((const uint8_t *)s)[i]; } return d; }
#define memcpy vp_bytecopy
static void obj_free(void *p);
#undef free
#define free(p) obj_free(p)
#include "diag_l2_vag.c"
#undef memcpy
#define OBJ_T struct diag_l2_vag
#include "objstub.h"
#ifndef EVENTS
#define EVENTS ""
#endif
#ifndef LEN
#define LEN 0
#endif
#ifndef L1FLAGS
#define L1FLAGS 0
#endif
#ifndef SEQ
#define SEQ 2
#endif
#ifndef PN
#define PN 2            /* payload bytes of a received block */
#endif
#ifndef SENDFAIL
#define SENDFAIL 0
#endif
static unsigned long g_ms;
unsigned long diag_os_getms(void) { return g_ms; }
void diag_os_millisleep(unsigned int ms) { g_ms += ms; }
unsigned long long diag_os_gethrt(void) { return g_ms * 1000ULL; }
unsigned long long diag_os_hrtus(unsigned long long d) { return d; }
static struct diag_l0_device g_dev;
static struct diag_l2_link g_link;
static struct diag_l2_conn g_conn;
static struct diag_l2_vag g_dp;
static struct diag_msg g_msg;
static uint8_t g_data[256], g_blk[12][PN + 4], g_noackdata;
static const char events[] = EVENTS;
#define NEV (sizeof(events) - 1)
static unsigned g_ev, g_nblk, g_k;
#define FRAMEDL1 ((L1FLAGS & DIAG_L1_DOESL2FRAME) != 0)
/* ---------- sending one block */
static struct { bool on; unsigned pos, sent, tries; bool wait; bool over; int rv; unsigned long t_sent, t_comp; int fail; unsigned l1rv_at; } T;
static uint8_t want(unsigned i) { return i == 0 ? (uint8_t)(LEN + 3) : i == 1 ? SEQ : i == 2 ? g_msg.type : i == LEN + 3 ? 0x03 : g_msg.data[i - 3]; }
/* ---------- receiving blocks */
static struct { unsigned reads, sends, acks, noacks, reqs, cbs; unsigned pos; bool comp; uint8_t last; bool over, lostetx; int hard; unsigned long t_byte; bool on; uint8_t seq; unsigned lastnoack; uint8_t ourseq; } R = { .lastnoack = 99 };
static struct { bool on; uint8_t tgt, kb1, kb2; unsigned speed; unsigned speeds, inits, reads, sends; bool flushed; int setrv, initrv, sendrv; unsigned fail; unsigned long t0, t1; } W;

static uint8_t blkbyte(char e, unsigned b, unsigned i) { return i < PN + 4 ? g_blk[b][i] : 0; }
/* what the ECU sends for a block event; its counter is ours plus one */
static unsigned mkblock(char e, unsigned b) {
	unsigned n = 0;
	uint8_t *q = g_blk[b];
	VP_BYTES(q, PN + 4);
	q[1] = (uint8_t)(R.ourseq + 1);
	switch (e) {
	case 'A': q[2] = KWP1281_SID_ACK; break;
	case 'Z': q[2] = KWP1281_SID_NO_ACK; break;
	case 'N': q[2] = KWP1281_SID_NO_ACK; n = 1; q[3] = R.ourseq; break;
	case 'U': q[2] = KWP1281_SID_NO_ACK; n = 1; REQUIRES(q[3] != R.ourseq); break;
	default: q[2] = (uint8_t)(0xF0 + b); n = PN; break;
	}
	if (e == 'D' && PN > 10) { for (unsigned i = 3; i < PN + 3; i++) { if (i > 6 && i < PN) { q[i] = (uint8_t)(i * 7); } } }
	q[0] = (uint8_t)(n + 3);
	q[n + 3] = 0x03;
	if (e == 'b') { q[n + 3] = 0x55; }                    /* no end byte */
	if (e == 's') { q[1] = (uint8_t)(R.ourseq + 3); }     /* wrong counter */
	if (e == '2') { q[0] = 2; q[2] = 0x03; n = 0; }
	if (e == '1') { q[0] = 1; }
	return n + 4;
}
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned tout) {
	VP_CHECK("diag_l1_recv.pre", d == &g_dev && n >= 1 && VP_W_OK(p, n));
	g_ms += 2;
	if (W.on && W.reads < 2) {
		VP_CHECK("key bytes are read one at a time, after the wake-up", n == 1 && tout > 0 && W.inits == 1);
		if (++W.reads == W.fail) { return DIAG_ERR_GENERAL; }
		*(uint8_t *)p = W.reads == 1 ? W.kb1 : W.kb2;
		return 1;
	}
	if (W.on && !(L1FLAGS & DIAG_L1_DOESSLOWINIT)) { VP_CHECK("key byte 2 is acknowledged before the first block", W.sends == 1); }
	if (T.on) {
		VP_CHECK("the complement of the last byte is awaited", T.wait && n == 1 && tout >= KWP1281_T_R8 && !T.over);
		VP_CHECK("unit bound: events", g_ev < NEV);
		char e = events[g_ev < NEV ? g_ev : 0]; g_ev++;
		T.wait = false;
		if (e == 'E') { T.over = true; T.rv = DIAG_ERR_GENERAL; return T.rv; }
		if (e == 'T' || e == 'x') {
			T.tries++;
			T.pos = 0;
			if (T.tries > KWP1281_TO_RETRIES) { T.over = true; T.rv = e == 'T' ? DIAG_ERR_TIMEOUT : DIAG_ERR_BADCSUM; }
			if (e == 'T') { return DIAG_ERR_TIMEOUT; }
			uint8_t w = vp_u8(); REQUIRES(w != (uint8_t)~want(T.sent - 1));
			*(uint8_t *)p = w;
			return 1;
		}
		*(uint8_t *)p = (uint8_t)~want(T.pos); T.pos++; T.t_comp = g_ms;
		return 1;
	}
	VP_CHECK("no read after an error or the end of the telegram", !R.over);
	R.reads++;
	if (R.pos == 0 || FRAMEDL1) {
		VP_CHECK("unit bound: events", g_ev < NEV);
		char e = events[g_ev < NEV ? g_ev : 0];
		if (e == 'T' || e == 'E' || e == 't') {
			g_ev++;
			if (e != 't') { R.over = true; }
			R.hard = e == 'E' ? DIAG_ERR_GENERAL : DIAG_ERR_TIMEOUT;
			return R.hard;
		}
		R.hard = 0;
		unsigned len = mkblock(e, g_nblk);
		if (e == 'm') { ms_failat = ms_n + 1; if (FRAMEDL1) { R.over = true; } }
		if (FRAMEDL1) {
			g_ev++;
			R.ourseq += 2;
			if (e == 'p') { R.over = true; R.hard = -1; len--; }
			if (e == '2') { R.over = true; R.hard = -1; }
			VP_CHECK("room for a whole block", n >= 256);
			for (unsigned i = 0; i < len; i++) { ((uint8_t *)p)[i] = g_blk[g_nblk][i]; }
			g_nblk++;
			return (int)len;
		}
	}
	/* byte by byte: each is complemented before the next, except the end byte */
	VP_CHECK("byte-wise reception", n == 1 && !R.comp);
	if (R.pos > 0) { VP_CHECK("inside a block the inter-byte time-out", tout >= KWP1281_T_R8 && tout <= 2 * KWP1281_T_R8); }
	{
		char e = events[g_ev < NEV ? g_ev : 0];
		unsigned bl = g_blk[g_nblk][0] + 1;
		/* events after a block letter: digits say at which byte the ECU falls silent: handled by l (lost end byte), r (restart after byte 2), h (broken off after byte 2) */
		if (e == 'l' && R.pos == bl - 1) { R.lostetx = true; if (++R.lastnoack == 101) { R.pos = 0; g_nblk++; g_ev++; R.lostetx = false; R.ourseq += 2; } return DIAG_ERR_TIMEOUT; }
		if (e == 'r' && R.pos == 2 && R.lastnoack == 99) { R.lastnoack = 98; R.pos = 0; return DIAG_ERR_TIMEOUT; }
		if ((e == 'h' && R.pos == 2) || (e == 'g' && R.pos == bl - 2) || (e == 'i' && R.pos == 1)) { if (R.lastnoack == 98) { R.over = true; R.hard = DIAG_ERR_TIMEOUT; } R.lastnoack = 98; return DIAG_ERR_TIMEOUT; }
		if (e == 'H' && R.pos == 3) { R.over = true; R.hard = DIAG_ERR_GENERAL; return R.hard; }
		R.last = g_blk[g_nblk][R.pos++];
		*(uint8_t *)p = R.last;
		R.t_byte = g_ms;
		R.comp = true;
		if (R.pos == bl) { R.comp = false; R.pos = 0; g_nblk++; g_ev++; R.ourseq += 2; if (e == 'm') { R.over = true; } if (e == '2') { R.over = true; R.hard = -1; } R.lastnoack = 99; }
	}
	return 1;
}
int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) {
	const uint8_t *d = v;
	VP_CHECK("diag_l1_send.pre", dev == &g_dev && len >= 1 && VP_R_OK(v, len));
	if (W.on && W.sends == 0 && !(L1FLAGS & DIAG_L1_DOESSLOWINIT)) {
		VP_CHECK("key byte 2 is acknowledged by its complement, once, not before R4", len == 1 && d[0] == (uint8_t)~W.kb2 && W.reads == 2 && g_ms >= W.t1 + KWP1281_T_R4_MIN);
		W.sends++;
		return W.fail == 3 ? DIAG_ERR_GENERAL : 0;
	}
	if (!T.on) {
		VP_CHECK("each byte but the last is answered by its complement, once", !FRAMEDL1 && R.comp && len == 1 && d[0] == (uint8_t)~R.last);
		VP_CHECK("the ECU gets time to switch", g_ms >= R.t_byte + KWP1281_T_R6_MIN);
		R.comp = false; R.sends++;
		if (SENDFAIL && R.sends == SENDFAIL) { R.over = true; R.hard = DIAG_ERR_GENERAL; return R.hard; }
		return 0;
	}
	VP_CHECK("nothing is sent after the block or a failure", !T.over && !T.wait);
	if (FRAMEDL1) {
		VP_CHECK("the whole block at once", len == LEN + 4);
		for (unsigned i = 0; i < 3; i++) { VP_CHECK("block header: length, counter, title", d[i] == want(i)); }
		VP_CHECK("data unchanged, end byte", IMPLIES(g_k < LEN, d[3 + g_k] == g_msg.data[g_k]) && d[LEN + 3] == 0x03);
		T.over = true; T.sent = LEN + 4;
		T.rv = SENDFAIL ? DIAG_ERR_GENERAL : 0;
		return T.rv;
	}
	VP_CHECK("byte by byte", len == 1);
	VP_CHECK("blocks are separated", g_ms >= g_dp.msg_finish_time / 1000 + KWP1281_T_RB_MIN);
	VP_CHECK("the block's bytes in order, restarted after a missing or wrong complement", d[0] == want(T.pos));
	if (T.pos > 0) { VP_CHECK("the ECU gets time between complement and next byte", g_ms >= T.t_comp + KWP1281_T_R6_MIN); }
	else if (T.tries) { VP_CHECK("a restarted block only after the ECU timed out", g_ms >= T.t_sent + 2 * KWP1281_T_R8); }
	T.sent = T.pos + 1; T.t_sent = g_ms;
	if (SENDFAIL && T.pos + 1 == SENDFAIL) { T.over = true; T.rv = DIAG_ERR_GENERAL; return T.rv; }
	if (T.pos == LEN + 3) { T.over = true; T.rv = 0; } else { T.wait = true; }
	return 0;
}
/* contract of sending (proved by the send units): our turn; the block buffer is used, then it is the ECU's turn */
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) {
	struct diag_l2_vag *dp = c->diag_l2_proto_data;
	VP_CHECK("sent on this connection, when it is our turn", c == &g_conn && dp->master == 1 && !R.over && !R.comp);
	VP_CHECK("the ECU's block counter is followed", dp->seq_nr == R.ourseq);
	if (dp->ecu_id_telegram != NULL) { diag_freemsg(dp->ecu_id_telegram); dp->ecu_id_telegram = NULL; }
	if (m == &g_msg) { R.reqs++; }
	else if (m->type == KWP1281_SID_ACK) { VP_CHECK("an acknowledge has no data", m->len == 0); R.acks++; }
	else { VP_CHECK("a bad block is refused by its counter", m->type == KWP1281_SID_NO_ACK && m->len == 1 && m->data[0] == g_blk[g_nblk - 1][1]); R.noacks++; }
	if (SENDFAIL && R.acks + R.noacks + R.reqs == SENDFAIL) { R.over = true; R.hard = DIAG_ERR_GENERAL; return R.hard; }
	dp->rxbuf[0] = (uint8_t)(m->len + 3); dp->rxbuf[1] = dp->seq_nr; dp->rxbuf[2] = m->type;
	dp->master = 0; dp->msg_finish_time = diag_os_gethrt();
	return 0;
}
int diag_l2_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { return diag_l2_proto_vag.diag_l2_proto_recv(c, t, cb, h); }
void diag_l2_addmsg(struct diag_l2_conn *c, struct diag_msg *m) {
	VP_CHECK("addmsg.pre", c == &g_conn && m != NULL);
	if (c->diag_msg == NULL) { c->diag_msg = m; }
	else { struct diag_msg *l = c->diag_msg; for (int i = 0; i < 7 && l->next != NULL; i++) { l = l->next; } l->next = m; }
}
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) {
	VP_CHECK("ioctl on this connection", c == &g_conn);
	if (cmd == DIAG_IOCTL_SETSPEED) {
		struct diag_serial_settings *s = d;
		VP_CHECK("speed set first: the requested one or 10400, 8N1", W.inits == 0 && W.speeds == 0 && s->speed == (W.speed ? W.speed : 10400) && s->databits == diag_databits_8 && s->stopbits == diag_stopbits_1 && s->parflag == diag_par_n);
		W.speeds++;
		return W.setrv;
	}
	if (cmd == DIAG_IOCTL_IFLUSH) { W.flushed = true; return vp_okerr(); }
	if (cmd == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *in = d;
		VP_CHECK("5-baud wake-up of the requested address, after an idle bus and with stale input flushed", W.inits == 0 && W.speeds == 1 && W.flushed && g_ms >= W.t0 + 300 && in->type == DIAG_L1_INITBUS_5BAUD && in->addr == W.tgt);
		W.inits++; W.t1 = g_ms;
		return W.initrv;
	}
	return vp_okerr();
}
static void setup(void) {
	g_ms = 50;
	g_link.l2_dl0d = &g_dev; g_link.l1flags = L1FLAGS;
	g_conn.diag_link = &g_link; g_conn.diag_l2_proto_data = &g_dp; g_conn.diag_l2_p4min = 5;
	g_dp.seq_nr = SEQ; g_dp.master = 1; g_dp.first_telegram_started = 1; g_dp.msg_finish_time = 50000;
	R.ourseq = SEQ;
	g_dp.rxbuf[0] = 5;      /* left by the block before */
	diag_l2_debug = 0;
	g_k = vp_uint();
#if LEN > 20
	for (int i = 0; i < 256; i++) { g_data[i] = (uint8_t)(i * 37 + 11); }
#else
	VP_BYTES(g_data, 256);
#endif
	g_msg.len = LEN; g_msg.type = LEN > 20 ? 0x1A : vp_u8();
	g_msg.data = g_msg.idata = LEN ? g_data + (256 - LEN) : NULL;
}
void h_send(void) {
	setup();
	T.on = true;
#ifdef NOTMASTER
	g_dp.master = 0;
#endif
#ifdef ECUID
	g_dp.ecu_id_telegram = diag_allocmsg(2);
#endif
	int rv = diag_l2_proto_vag.diag_l2_proto_send(&g_conn, &g_msg);
#ifdef NOTMASTER
	ENSURES("out of turn: refused, nothing is sent", rv < 0 && T.sent == 0 && g_dp.master == 0);
#else
	if (LEN > 252) { ENSURES("a block that the length byte cannot describe is refused, nothing is sent", rv == DIAG_ERR_BADLEN && T.sent == 0); }
	else {
		ENSURES("the exchange is completed", T.over && g_ev == NEV);
		ENSURES("result: success, or the failure after all attempts", rv == T.rv);
		ENSURES("the turn passes to the ECU exactly on success", g_dp.master == (rv != 0));
		ENSURES("all bytes sent", IMPLIES(rv == 0, T.sent == LEN + 4));
	}
#endif
	ENSURES("nothing leaks", ms_nlive == 0);
}
/* expected outcome of a telegram (walks the events as the protocol says) */
static struct { bool ok; unsigned first, n, acks, noacks, used; int list[12]; } X;
static bool isdata(char e) { return e == 'D' || e == 'l' || e == 'r'; }
static unsigned expect(unsigned ev, unsigned blk) {
	unsigned na = 0;
	X.ok = false; X.n = 0; X.acks = 0; X.noacks = 0;
	for (unsigned i = ev; i < NEV; i++) {
		char e = events[i];
		if (e == 't') { continue; }
		if (e == 'b' || e == 's') { X.noacks++; blk++; continue; }
		if (isdata(e)) { X.list[X.n++] = (int)blk; blk++; na = 0; X.acks++; continue; }
		if (e == 'A' && X.n) { X.ok = true; X.used = i + 1; return blk + 1; }
		if (X.n == 0 && (e == 'A' || e == 'N' || e == 'U' || e == 'Z')) { X.list[X.n++] = (int)blk; X.ok = true; X.used = i + 1; return blk + 1; }
		if (e == 'N') { if (++na == KWP1281_NA_RETRIES) { X.used = i + 1; X.n = 0; return blk + 1; } X.acks++; blk++; continue; }
		if (e == 'U' || e == 'Z') { X.acks++; blk++; continue; }
		X.n = 0; X.used = i + 1; return blk + 1;
	}
	X.n = 0; X.used = NEV;
	return blk;
}
static void check_list(struct diag_msg *m) {
	for (unsigned i = 0; i < X.n; i++) {
		const uint8_t *b = g_blk[X.list[i]];
		ENSURES("every data block of the telegram is delivered, in order", m != NULL && m->len == b[0] - 3u && m->type == b[2]);
		if (b[0] > 3) { ENSURES("block data unchanged", VP_R_OK(m->data, b[0] - 3u)); for (unsigned k = 0; k + 3 < b[0]; k++) { ENSURES("block data unchanged", m->data[k] == b[3 + k]); } }
		ENSURES("verified", m->fmt & DIAG_FMT_CKSUMMED);
		m = m->next;
	}
	ENSURES("nothing else is delivered", m == NULL);
}
static void cb(void *h, struct diag_msg *m) { VP_CHECK("callback handle", h == (void *)&R); R.cbs++; check_list(m); }
void h_recv(void) {
	setup();
	g_dp.master = 0;
#ifdef QUEUED
	g_conn.diag_msg = diag_allocmsg(2);
#endif
	expect(0, 0);
	int rv = diag_l2_proto_vag.diag_l2_proto_recv(&g_conn, 0, cb, &R);
	bool ok = X.ok && !ms_failed && !SENDFAIL;
	ENSURES("the whole telegram is received", g_ev == NEV && R.pos == 0 || !ok);
	if (ok) { ENSURES("delivered once", rv == 0 && R.cbs == 1 && R.acks == X.acks && R.noacks == X.noacks); ENSURES("our turn, with the next block counter", g_dp.master == 1 && g_dp.seq_nr == R.ourseq); }
	else { ENSURES("a failure is reported, nothing is delivered", rv < 0 && R.cbs == 0); if (R.hard < -1) { ENSURES("errors of the lower layer are passed on", rv == R.hard); } }
	ENSURES("nothing stays queued, nothing leaks", g_conn.diag_msg == NULL && ms_nlive == 0);
}
void h_request(void) {
	int err = 77;
	setup();
	/* refused requests are repeated */
	unsigned ev = 0, blk = 0, reqs = 1, acks = 0;
	bool fail = false;
	for (unsigned na = 0; ; ) {
		blk = expect(ev, blk);
		acks += X.acks;
		if (!X.ok) { fail = true; break; }
		if (events[X.used - 1] != 'N' || X.n != 1 || g_nblk != 0) { break; }
		if (++na == KWP1281_NA_RETRIES) { fail = true; break; }
		reqs++; ev = X.used;
		if (ev >= NEV) { break; }
	}
	struct diag_msg *r = diag_l2_proto_vag.diag_l2_proto_request(&g_conn, &g_msg, &err);
	if (SENDFAIL) { ENSURES("a failed send is reported", r == NULL && err == R.hard); }
	else if (fail || ms_failed) { ENSURES("a failure is reported, no response", r == NULL && err < 0); ENSURES("request repeated while it is refused", R.reqs == reqs); if (R.hard < -1) { ENSURES("errors of the lower layer are passed on", err == R.hard); } }
	else { ENSURES("the telegram is returned", r != NULL && g_ev == NEV); ENSURES("request repeated while it is refused", R.reqs == reqs && R.acks == acks); check_list(r); ENSURES("it is the caller's alone", g_conn.diag_msg == NULL); diag_freemsg(r); }
	ENSURES("nothing leaks", ms_nlive == (g_conn.diag_msg != NULL));
}
/* ECU identification: received by the session start, delivered by the first receive */
void h_ecuid(void) {
	setup();
	g_dp.ecu_id_telegram = diag_allocmsg(2);
	g_blk[0][0] = 5; g_blk[0][2] = 0xF0; X.n = 1; X.ok = true;
	g_dp.ecu_id_telegram->type = 0xF0; g_dp.ecu_id_telegram->fmt = DIAG_FMT_CKSUMMED;
	int rv = diag_l2_proto_vag.diag_l2_proto_recv(&g_conn, 0, cb, &R);
	ENSURES("the stored identification is delivered once, without traffic", rv == 0 && R.cbs == 1 && R.reads == 0 && g_dp.ecu_id_telegram == NULL && g_dp.master == 1);
	ENSURES("nothing leaks", g_conn.diag_msg == NULL && ms_nlive == 0);
}
void h_timeout(void) {
	setup();
#ifdef ECUID
	struct diag_msg *id = g_dp.ecu_id_telegram = diag_allocmsg(2);
#endif
	diag_l2_proto_vag.diag_l2_proto_timeout(&g_conn);
	ENSURES("one acknowledge; the answer is read when it was sent", R.acks >= 1 && IFF(SENDFAIL, R.reads == 0) && g_ev == NEV && g_conn.diag_msg == NULL);
#ifdef ECUID
	ENSURES("the stored identification is kept", g_dp.ecu_id_telegram == id && ms_nlive == 1 && ms_live[ms_index(id)]);
#else
	ENSURES("nothing leaks", ms_nlive == 0);
#endif
}
#ifndef FAILAT
#define FAILAT 0
#endif
/* FAILAT: 1,2 key bytes, 3 complement, 4 speed, 5 wake-up, 6 no memory */
void h_start(void) {
	setup();
	W.on = true; W.t0 = g_ms;
	R.ourseq = 0;
	g_conn.diag_l2_proto_data = NULL;
	W.tgt = vp_u8(); W.speed = vp_uint(); W.kb1 = vp_u8(); W.kb2 = vp_u8(); W.fail = FAILAT;
	W.setrv = FAILAT == 4 ? vp_err() : 0; W.initrv = FAILAT == 5 ? vp_err() : 0;
	vp_oom = FAILAT == 6;
	expect(0, 0);
	int rv = diag_l2_proto_vag.diag_l2_proto_startcomms(&g_conn, vp_uint(), W.speed, W.tgt, vp_u8());
	struct diag_l2_vag *dp = g_conn.diag_l2_proto_data;
	bool ok = FAILAT == 0 && X.ok && !ms_failed;
	if (FAILAT == 4 || FAILAT == 6) { ENSURES("no wake-up", W.inits == 0); }
	if (FAILAT == 5) { ENSURES("wake-up failure reported", rv == W.initrv && W.reads == 0); }
	ENSURES("established exactly when the ECU's first telegram arrived", IFF(rv == 0, ok) && rv <= 0);
	ENSURES("session data exist exactly when the session was started", IFF(ok, obj_live) && IMPLIES(!ok, dp == NULL) && IMPLIES(ok, dp == &obj_store));
	if (!FRAMEDL1 && NEV == 1 && events[0] == 'T' && FAILAT == 0) { ENSURES("silence after the key bytes: wrong speed", rv == DIAG_ERR_BADRATE); }
	if (ok) {
		ENSURES("key bytes, keep-alive well within the block time-out", g_conn.diag_l2_kb1 == W.kb1 && g_conn.diag_l2_kb2 == W.kb2 && g_conn.tinterval > 0 && g_conn.tinterval < KWP1281_T_RB);
		ENSURES("the identification telegram is kept for the first receive", dp->ecu_id_telegram != NULL && g_conn.diag_msg == NULL);
		check_list(dp->ecu_id_telegram);
		unsigned long t = g_ms;
		ENSURES("stop: the ECU is left to time out, everything is released", diag_l2_proto_vag.diag_l2_proto_stopcomms(&g_conn) == 0 && g_ms >= t + KWP1281_T_RB_MAX && !obj_live && g_conn.diag_l2_proto_data == NULL);
	}
	ENSURES("nothing leaks", ms_nlive == 0 && g_conn.diag_msg == NULL);
}
