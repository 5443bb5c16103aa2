/* C06: ISO14230 start/stop communications and keep-alive. Real code: diag_l2_iso14230.c */
#define SLOTCAP 8
#define NSLOTS 3
#include "stubs_l1.h"
#include "msgstub.h"
#include "diag_l2_iso14230.h"
#define OBJ_T struct diag_l2_14230
#include "objstub.h"
static uint8_t g_cks;
uint8_t diag_cks1(const uint8_t *p, unsigned n) { uint8_t s = 0; for (unsigned i = 0; i < 8; i++) { if (i < n) { s += p[i]; } } VP_CHECK("unit bound", n <= 8); return s; }
#include "diag_l2_iso14230.c"
#ifndef SCRIPT
#define SCRIPT 0
#endif
#ifndef L1FLAGS
#define L1FLAGS 0
#endif
static const int script[] = { SCRIPT };
#define NSCRIPT (sizeof(script) / sizeof(script[0]))
static struct diag_l0_device g_dev;
static struct diag_l2_link g_link;
static struct diag_l2_conn g_conn;
static struct {
	unsigned reads, sends, ioctls, speed_set, inits; int initrv, setrv, sendrv; bool flushed; uint8_t rx[32]; unsigned got; int fail; bool sp;
	unsigned l2sends, l2recvs; uint8_t kp0, kp1; unsigned kplen; bool idle;
} G;
static flag_type g_flags; static uint8_t g_tgt, g_src; static unsigned g_bitrate;

int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) {
	VP_CHECK("ioctl on this connection", c == &g_conn);
	if (cmd == DIAG_IOCTL_SETSPEED) {
		struct diag_serial_settings *s = d;
		VP_CHECK("speed is set before anything is sent", G.sends == 0 && G.inits == 0);
		VP_CHECK("bus speed: the requested one, or 10400; 8N1", s->speed == (g_bitrate ? g_bitrate : 10400) && s->databits == diag_databits_8 && s->stopbits == diag_stopbits_1 && s->parflag == diag_par_n);
		G.speed_set++;
		return G.setrv;
	}
	if (cmd == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *in = d;
		VP_CHECK("one bus initialisation, after the speed is set", G.inits == 0 && G.speed_set == 1 && G.setrv == 0 && G.flushed);
		VP_CHECK("wake-up pattern of the requested kind", in->type == ((g_flags & DIAG_L2_TYPE_INITMASK) == DIAG_L2_TYPE_FASTINIT ? DIAG_L1_INITBUS_FAST : DIAG_L1_INITBUS_5BAUD));
		VP_CHECK("wake-up to the requested address", in->addr == g_tgt);
		if ((g_flags & DIAG_L2_TYPE_INITMASK) == DIAG_L2_TYPE_FASTINIT) {
			VP_CHECK("tester address", in->testerid == g_src);
			VP_CHECK("addressing", IFF(in->physaddr, !(g_flags & DIAG_L2_TYPE_FUNCADDR)));
		}
		G.inits++;
		return G.initrv;
	}
	if (cmd == DIAG_IOCTL_IFLUSH) { G.flushed = true; }
	return vp_okerr();
}
int diag_l1_send(struct diag_l0_device *dev, const void *v, size_t len, unsigned int p4) {
	const uint8_t *b = v;
	VP_CHECK("nothing is sent before the bus is woken", G.inits == 1 && G.initrv == 0);
	VP_CHECK("device, p4", dev == &g_dev && p4 == g_conn.diag_l2_p4min);
	VP_CHECK("one transmission", G.sends == 0);
	VP_CHECK("nothing sent in monitor mode or to interfaces that do the whole init", !(g_link.l1flags & DIAG_L1_DOESFULLINIT));
	G.sends++;
	if ((g_flags & DIAG_L2_TYPE_INITMASK) == DIAG_L2_TYPE_FASTINIT) {
		if (g_link.l1flags & DIAG_L1_DATAONLY) { VP_CHECK("StartCommunication request", len == 1 && b[0] == DIAG_KW2K_SI_SCR); }
		else {
			VP_CHECK("StartCommunication frame", len == ((g_link.l1flags & DIAG_L1_DOESL2CKSUM) ? 4 : 5)
			         && b[0] == (0x81 | ((g_flags & DIAG_L2_TYPE_FUNCADDR) ? 0x40 : 0)) && b[1] == g_tgt && b[2] == g_src && b[3] == DIAG_KW2K_SI_SCR);
			if (len == 5) { VP_CHECK("StartCommunication checksum", b[4] == (uint8_t)(b[0] + b[1] + b[2] + b[3])); }
		}
	} else {
		VP_CHECK("key byte 2 is acknowledged with its complement", len == 1 && b[0] == (uint8_t)~G.rx[1] && G.got == 2 && !(g_link.l1flags & DIAG_L1_DOESSLOWINIT));
	}
	return G.sendrv;
}
int diag_l1_recv(struct diag_l0_device *d, void *p, size_t n, unsigned tout) {
	VP_CHECK("the script is long enough", G.reads < NSCRIPT);
	int rv = script[G.reads < NSCRIPT ? G.reads : NSCRIPT - 1];
	VP_CHECK("diag_l1_recv.pre", d == &g_dev && n >= 1 && IMPLIES(rv > 0, (size_t)rv <= n && VP_W_OK(p, rv)));
	G.reads++;
	if (rv > 0) { for (int i = 0; i < rv; i++) { ((uint8_t *)p)[i] = G.rx[G.got + i]; } G.got += rv; return rv; }
	if (rv < 0) { G.fail = rv; return rv; }
	return DIAG_ERR_TIMEOUT;
}
static struct diag_msg *g_rx; static unsigned g_kp_recv_tmo;
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) {
	VP_CHECK("one message on this connection", c == &g_conn && m->len >= 1 && G.l2sends == 0 && m->dest == 0 && m->src == 0);
	G.l2sends++; G.kplen = m->len; G.kp0 = m->data[0]; if (m->len > 1) { G.kp1 = m->data[1]; }
	return G.sendrv;
}
int diag_l2_recv(struct diag_l2_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { VP_CHECK("recv.pre", c == &g_conn && cb == NULL); G.l2recvs++; return vp_okerr(); }
void diag_l2_addmsg(struct diag_l2_conn *c, struct diag_msg *m) { VP_CHECK("addmsg.pre", c == &g_conn && c->diag_msg == NULL); c->diag_msg = m; }

static void conn(void) {
	g_link.l2_dl0d = &g_dev;
	g_link.l1flags = L1FLAGS;
	g_conn.diag_link = &g_link;
	g_conn.diag_l2_p2min = 25; g_conn.diag_l2_p2max = vp_u16(); g_conn.diag_l2_p1max = vp_u16(); g_conn.diag_l2_p4max = vp_u16(); g_conn.diag_l2_p3min = vp_u16(); g_conn.diag_l2_p4min = vp_u16();
	g_conn.diag_msg = NULL;
	VP_BYTES(G.rx, 32);
	vp_oom = false;
}
#ifndef INIT
#define INIT DIAG_L2_TYPE_FASTINIT
#endif
#ifndef XF
#define XF 0
#endif
#ifndef IOFAIL
#define IOFAIL 0
#endif
void h_start(void) {
	conn();
	g_flags = INIT | XF;
	g_tgt = vp_u8(); g_src = vp_u8(); g_bitrate = vp_uint();
	REQUIRES(g_tgt != 0 && g_src != 0);
#if RXOFF > 0
	G.rx[0] = RXFMT;
#endif
	G.setrv = IOFAIL == 1 ? vp_err() : 0;
	G.initrv = IOFAIL == 2 ? vp_err() : 0;
	G.sendrv = IOFAIL == 3 ? vp_err() : 0;
	vp_oom = IOFAIL == 4;
	int rv = diag_l2_proto_iso14230.diag_l2_proto_startcomms(&g_conn, g_flags, g_bitrate, g_tgt, g_src);
	vp_oom = false;
	VP_COVER("established", rv == 0);
	VP_COVER("refused", rv < 0);
	ENSURES("0 or a negative error", rv <= 0);
	ENSURES("session data exist exactly when the session was started", IFF(rv == 0, obj_live) && IFF(rv == 0, g_conn.diag_l2_proto_data == (void *)&obj_store) && IMPLIES(rv != 0, g_conn.diag_l2_proto_data == NULL));
	ENSURES("no response stays queued, nothing leaks", g_conn.diag_msg == NULL && ms_nlive == 0);
	bool ok;     /* did the handshake complete? */
	uint8_t kb1 = 0; bool kbs = false;
	int want = 0;
	if (IOFAIL) { ok = false; }
	else if (INIT == DIAG_L2_TYPE_MONINIT) { ok = true; ENSURES("monitoring does not touch the bus", G.sends == 0 && G.inits == 0); }
	else if (INIT != DIAG_L2_TYPE_FASTINIT && INIT != DIAG_L2_TYPE_SLOWINIT) { ok = false; want = DIAG_ERR_INIT_NOTSUPP; }
	else if (L1FLAGS & DIAG_L1_DOESFULLINIT) { ok = true; ENSURES("interface did the whole initialisation", G.sends == 0); }
	else if (G.fail) { ok = false; want = G.fail; }
	else if (INIT == DIAG_L2_TYPE_FASTINIT) {
		/* the response payload: RXOFF bytes of header in front, checksum behind */
		const uint8_t *r = G.rx + RXOFF;
		if (RXLEN == 0) { ok = false; want = DIAG_ERR_TIMEOUT; }
#if RXOFF > 0
		/* full frame given: checked end to end */
		else if (G.rx[RXOFF + RXLEN] != (uint8_t)(G.rx[0] + G.rx[1] + G.rx[2] + r[0] + r[1] + r[2])) { ok = false; want = DIAG_ERR_BADCSUM; }
#endif
		else if (r[0] != DIAG_KW2K_RC_SCRPR) { ok = false; want = DIAG_ERR_ECUSAIDNO; }
		else if (RXLEN < 3) { ok = false; want = DIAG_ERR_INCDATA; }
		else { ok = true; kbs = true; kb1 = r[1]; ENSURES("key byte 2", g_conn.diag_l2_kb2 == r[2]);
			if (RXOFF > 0) { ENSURES("the ECU's address is learned from its response", g_conn.diag_l2_physaddr == G.rx[2]); } }
	} else {
		if (RXLEN == 0) { ok = false; want = DIAG_ERR_TIMEOUT; }
		else if (RXLEN == 1) { ok = false; want = DIAG_ERR_INCDATA; }
		else { kbs = true; kb1 = G.rx[0] & 0x7f;
			if (L1FLAGS & DIAG_L1_DOESSLOWINIT) { ok = true; }
			else if (RXLEN == 2) { ok = false; want = DIAG_ERR_TIMEOUT; }
			else { ok = G.rx[2] == (uint8_t)~g_tgt; want = DIAG_ERR_WRONGKB; }
			if (ok) { ENSURES("key byte 2", g_conn.diag_l2_kb2 == G.rx[1]); }
		}
	}
	ENSURES("started exactly when the handshake completed", IFF(rv == 0, ok));
	if (!ok && want) { ENSURES("the reason of the failure is reported", rv == want); }
	if (IOFAIL == 1) { ENSURES("speed error", rv == G.setrv && G.inits == 0 && G.sends == 0); }
	if (IOFAIL == 2) { ENSURES("bus initialisation error", rv == G.initrv && G.sends == 0); }
	if (IOFAIL == 4) { ENSURES("out of memory", rv == DIAG_ERR_NOMEM); }
	if (rv == 0) {
		int m = obj_store.modeflags;
		ENSURES("session parameters", obj_store.srcaddr == g_src && obj_store.dstaddr == g_tgt && obj_store.state == STATE_ESTABLISHED);
		ENSURES("addressing and keep-alive mode", IFF(m & ISO14230_FUNCADDR, g_flags & DIAG_L2_TYPE_FUNCADDR) && IFF(m & ISO14230_IDLE_J1978, g_flags & DIAG_L2_IDLE_J1978));
		if (kbs) {
			ENSURES("header formats follow key byte 1", g_conn.diag_l2_kb1 == kb1 && IFF(m & ISO14230_FMTLEN, kb1 & 1) && IFF(m & ISO14230_LENBYTE, kb1 & 2) && IFF(m & ISO14230_SHORTHDR, kb1 & 4) && IFF(m & ISO14230_LONGHDR, kb1 & 8));
		}
		ENSURES("the bus is idle when the session starts", G.reads == NSCRIPT);
	}
}
/* keep-alive */
void h_keepalive(void) {
	conn();
	g_conn.diag_l2_proto_data = &obj_store; obj_live = true;
	obj_store.modeflags = vp_int();
	G.sendrv = vp_okerr();
	int d0 = vp_int(), d1 = vp_int(), d2 = vp_int();
	diag_l0_debug = d0; diag_l1_debug = d1; diag_l2_debug = d2;
	diag_l2_proto_iso14230.diag_l2_proto_timeout(&g_conn);
	ENSURES("one keep-alive request, its response is consumed", G.l2sends == 1 && G.l2recvs == 1);
	if (obj_store.modeflags & ISO14230_IDLE_J1978) { ENSURES("J1978 keep-alive: mode 1 PID 0", G.kplen == 2 && G.kp0 == 1 && G.kp1 == 0); }
	else { ENSURES("TesterPresent", G.kplen == 1 && G.kp0 == DIAG_KW2K_SI_TP); }
	ENSURES("debug settings are restored", diag_l0_debug == d0 && diag_l1_debug == d1 && diag_l2_debug == d2);
}
/* stop */
void h_stop(void) {
	conn();
	g_link.l1flags = DIAG_L1_DOESL2FRAME | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_NOHDRS;
	g_conn.diag_l2_proto_data = &obj_store; obj_live = true;
	G.sendrv = IOFAIL ? vp_err() : 0;
	REQUIRES(G.rx[0] != DIAG_KW2K_RC_NR || (G.rx[2] != DIAG_KW2K_RC_B_RR && G.rx[2] != DIAG_KW2K_RC_RCR_RP));
	int rv = diag_l2_proto_iso14230.diag_l2_proto_stopcomms(&g_conn);
	ENSURES("stop always succeeds", rv == 0);
	ENSURES("StopCommunication is requested once", G.l2sends == 1 && G.kplen == 1 && G.kp0 == DIAG_KW2K_SI_SPR);
	ENSURES("session data released", !obj_live && g_conn.diag_l2_proto_data == NULL && ms_nlive == 0 && g_conn.diag_msg == NULL);
}
