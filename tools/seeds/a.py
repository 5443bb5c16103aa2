H = '#include "seed_l0.h"\n'
SEED("S01a", "C01", "diag_general.c", [("			diag_freemsg(newchain); //undo what we have so far\n			return diag_pseterr(DIAG_ERR_NOMEM);", "			return newchain;     //return what we have so far")],
 H + '''#include <malloc.h>
#include <dlfcn.h>
static int budget = -1;
void *__real_calloc(size_t n, size_t s);
int main(void) {
	struct diag_msg *a = diag_allocmsg(1), *b = diag_allocmsg(DIAG_MAX_MSGLEN);
	a->next = b;
	b->len = DIAG_MAX_MSGLEN + 1;       /* the second copy cannot be made */
	struct diag_msg *c = diag_dupmsg(a);
	if (c != NULL) { DIE("a truncated copy of the chain was returned"); }
	return 0;
}''', "duplicating the 2nd or a later message of a chain fails", "diag_dupmsg returns a truncated chain instead of failing")
SEED("S01b", "C01", "diag_general.c", [("	newmsg->type = msg->type;\n", "	newmsg->type = msg->fmt ? msg->type : 0;\n")],
 H + '''int main(void) {
	struct diag_msg *a = diag_allocmsg(8);
	a->type = 5;
	struct diag_msg *c = diag_dupsinglemsg(a);
	if (c->type != 5) { DIE("copy differs"); }
	return 0;
}''', "duplicating a message that has a type and no format flags", "the copy loses the type")
SEED("S02a", "C02", "diag_general.c", [("	while (len > 0) {\n		len--;\n		rv += data[len];", "	while ((uint8_t)len > 0) {\n		len--;\n		rv += data[len];")],
 H + '''int main(void) {
	uint8_t d[600]; for (int i = 0; i < 600; i++) { d[i] = i * 7 + 3; }
	uint8_t s = 0;
	for (unsigned n = 0; n <= 600; n++) { if (n) { s += d[n - 1]; } if (diag_cks1(d, n) != s) { DIE("checksum of %u bytes", n); } }
	return 0;
}''', "a buffer of 256 bytes or more", "only len mod 256 bytes are summed")
SEED("S03a", "C03", "diag_l2_iso14230.c", [("		if (msg->src) {\n			buf[2] = msg->src;", "		if (msg->src && msg->dest) {\n			buf[2] = msg->src;")],
 H + '''int main(void) {
	uint8_t r[] = {0x83, 0xf1, 0x11, 0xc1, 0xef, 0x8f, 0}; for (int i = 0; i < 6; i++) { r[6] += r[i]; }
	q_tmo(); q_bytes(r, 7);
	s_flags = DIAG_L1_FAST | DIAG_L1_DOESP4WAIT;
	q_reset(); q_bytes(r, 7);
	struct diag_l2_conn *c = s_start(DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_FASTINIT, 10400, 0x11, 0xf1);
	if (!c) { DIE("start"); }
	uint8_t d[] = {0x3e}; struct diag_msg m = {0}; m.data = d; m.len = 1; m.src = 0xf5;
	q_reset();
	diag_l2_send(c, &m);
	if (s_nlog != 1 || s_log[0].len != 5 || s_log[0].b[1] != 0x11 || s_log[0].b[2] != 0xf5) { DIE("header %x %x", s_log[0].b[1], s_log[0].b[2]); }
	_exit(0);
}''', "a request that overrides only the source address", "the source override is ignored unless a target override is given as well")
SEED("S04a", "C04", "diag_l2_iso14230.c", [("			tmsg->data += rv;\n\n			/*  Insert new amsg before old msg */", "			tmsg->data += hdrlen + datalen + 1;\n			tmsg->fmt = amsg->fmt;\n\n			/*  Insert new amsg before old msg */"), ("			if (lastmsg == NULL) {\n				d_l2_conn->diag_msg = amsg;\n			} else {\n				lastmsg->next = amsg;\n			}\n\n			tmsg = amsg;", "			if (d_l2_conn->diag_msg == tmsg) {\n				d_l2_conn->diag_msg = amsg;\n			} else {\n				d_l2_conn->diag_msg->next = amsg;\n			}\n\n			tmsg = amsg;")],
 H + '''static int n; static uint8_t got[8];
static void cb(void *h, struct diag_msg *m) { for (; m; m = m->next) { if (n < 8) { got[n] = m->data[0]; } n++; } }
int main(void) {
	uint8_t r[] = {0x83, 0xf1, 0x11, 0xc1, 0xef, 0x8f, 0}; for (int i = 0; i < 6; i++) { r[6] += r[i]; }
	s_flags = DIAG_L1_FAST | DIAG_L1_DOESP4WAIT;
	q_bytes(r, 7);
	struct diag_l2_conn *c = s_start(DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_FASTINIT, 10400, 0x11, 0xf1);
	if (!c) { DIE("start"); }
	uint8_t f[20]; 
	for (int k = 0; k < 4; k++) { uint8_t *p = f + 5 * k; p[0] = 0x81; p[1] = 0xf1; p[2] = 0x11; p[3] = 0x50 + k; p[4] = p[0] + p[1] + p[2] + p[3]; }
	q_reset(); q_bytes(f, 20);
	diag_l2_recv(c, 100, cb, NULL);
	if (n != 4 || got[0] != 0x50 || got[1] != 0x51 || got[2] != 0x52) { DIE("%d messages", n); }
	_exit(0);
}''', "four or more frames arriving run together in one read", "one of four coalesced frames is lost")
FAST = '''	uint8_t r[] = {0x83, 0xf1, 0x11, 0xc1, 0xef, 0x8f, 0}; for (int i = 0; i < 6; i++) { r[6] += r[i]; }
	q_bytes(r, 7);
	struct diag_l2_conn *c = s_start(DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_FASTINIT, 10400, 0x11, 0xf1);
	if (!c) { DIE("start"); }
	q_reset();
'''
FR = '''static void frame(uint8_t a, uint8_t b, uint8_t d) { uint8_t f[7] = {0x83, 0xf1, 0x11, a, b, d, 0}; for (int i = 0; i < 6; i++) { f[6] += f[i]; } q_bytes(f, 7); }
'''
SEED("S05a", "C05", "diag_l2_iso14230.c", [("			diag_freemsg(rmsg);\n			continue;\n		}\n		/* Some other type of error */", "			diag_freemsg(rmsg);\n			retries = 3;\n			continue;\n		}\n		/* Some other type of error */")],
 H + FR + '''int main(void) {
	s_flags = DIAG_L1_FAST | DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME;
''' + FAST + '''	for (int i = 0; i < 8; i++) { frame(0x7f, 0x21, 0x21); q_tmo(); frame(0x7f, 0x21, 0x78); q_tmo(); }
	uint8_t d[] = {0x21, 1}; struct diag_msg m = {0}; int err = 0; m.data = d; m.len = 2;
	struct diag_msg *x = diag_l2_request(c, &m, &err);
	if (s_nlog > 4) { DIE("sent %d times", s_nlog); }
	_exit(0);
}''', "an ECU that alternates busy and response-pending answers", "the repeat budget is refilled by each response-pending")
SEED("S05b", "C05", "diag_l2_iso14230.c", [("			d_l2_conn->diag_msg = rmsg->next;\n			rmsg->next = NULL;", "			d_l2_conn->diag_msg = rmsg->next;\n			if (rmsg->next && rmsg->next->data[0] == DIAG_KW2K_RC_NR) {\n				d_l2_conn->diag_msg = rmsg->next->next;\n			}\n			rmsg->next = NULL;")],
 H + FR + '''int main(void) {
	s_flags = DIAG_L1_FAST | DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME;
''' + FAST + '''	frame(0x7f, 0x21, 0x78); frame(0x7f, 0x21, 0x31);
	uint8_t d[] = {0x21, 1}; struct diag_msg m = {0}; int err = 0; m.data = d; m.len = 2;
	struct diag_msg *x = diag_l2_request(c, &m, &err);
	if (!x || x->data[0] != 0x7f || err != DIAG_ERR_ECUSAIDNO) { DIE("no answer, err %d", err); }
	_exit(0);
}''', "response-pending and a negative final response received in the same reception", "a refusal right behind a response-pending is dropped")
SEED("S06a", "C06", "diag_l2_iso14230.c", [("			d_l2_conn->diag_l2_physaddr = d_l2_conn->diag_msg->src;", "			d_l2_conn->diag_l2_physaddr = in.physaddr ? target : d_l2_conn->diag_msg->dest;")],
 H + '''int main(void) {
	uint8_t r[] = {0x83, 0xf1, 0x11, 0xc1, 0xef, 0x8f, 0}; for (int i = 0; i < 6; i++) { r[6] += r[i]; }
	s_flags = DIAG_L1_FAST | DIAG_L1_DOESP4WAIT;
	q_bytes(r, 7);
	struct diag_l2_conn *c = s_start(DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_FASTINIT | DIAG_L2_TYPE_FUNCADDR, 10400, 0x33, 0xf1);
	if (!c) { DIE("start"); }
	if (c->diag_l2_physaddr != 0x11) { DIE("address %x", c->diag_l2_physaddr); }
	_exit(0);
}''', "a fast start with functional addressing", "the ECU address is taken from the wrong field of the answer")
SEED("S06b", "C06", "diag_l2_iso14230.c", [("		d_l2_conn->diag_l2_kb1 = cbuf[0] & 0x7f;", "		d_l2_conn->diag_l2_kb1 = cbuf[0];"), ("((d_l2_conn->diag_l2_kb1 & 2)? ISO14230_LENBYTE:0)", "((d_l2_conn->diag_l2_kb1 & 0x82)? ISO14230_LENBYTE:0)")],
 H + '''int main(void) {
	uint8_t kb[] = {0xe9, 0x8f}, ad[] = {(uint8_t)~0x11};
	s_flags = DIAG_L1_SLOW | DIAG_L1_DOESP4WAIT;
	q_bytes(kb, 2); q_bytes(ad, 1);
	struct diag_l2_conn *c = s_start(DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_SLOWINIT, 10400, 0x11, 0xf1);
	if (!c) { DIE("start"); }
	if (c->diag_l2_kb1 != 0x69) { DIE("kb1 %x", c->diag_l2_kb1); }
	uint8_t d[100] = {1}; struct diag_msg m = {0}; m.data = d; m.len = 70;
	q_reset();
	if (diag_l2_send(c, &m) >= 0) { DIE("a 70-byte message was sent to an ECU without length byte support"); }
	_exit(0);
}''', "5-baud start with a key byte carrying the parity bit", "parity bit is taken for a capability")
SEED("S08a", "C08", "diag_l2_saej1850.c", [("		tout = timeout - (t_done / 1000);", "		tout = timeout;")],
 H + '''static unsigned long long total;
static int slow(struct diag_l0_device *d, void *data, size_t len, unsigned tmo) {
	uint8_t f[6] = {0x48, 0x6b, 0x10, 0x41, 0x00, 0};
	static int n;
	total = tmo;
	if (n++ < 1) { diag_os_millisleep(200); memcpy(data, f, 6); return 6; }
	return DIAG_ERR_TIMEOUT;
}
int main(void) {
	struct diag_l0 l0 = s0; l0._recv = slow; s_dev.dl0 = &l0;
	s_flags = DIAG_L1_DOESL2FRAME;
	struct diag_l2_conn *c = s_start(DIAG_L1_J1850_VPW, DIAG_L2_PROT_SAEJ1850, 0, 0, 0x10, 0xf1);
	if (!c) { DIE("start"); }
	diag_l2_recv(c, 300, NULL, NULL);
	if (total > 270) { DIE("last read was given %llu ms", total); }
	_exit(0);
}''', "responses that arrive late within the time allowed", "each read gets the full time-out again, the total is exceeded")
SEED("S08b", "C08", "diag_l2_saej1850.c", [("			if (datalen <= 1) {", "			if (datalen < 1) {"), ("			if (datalen <= 3) {", "			if (datalen < 3) {")],
 H + '''static int n;
static void cb(void *h, struct diag_msg *m) { for (; m; m = m->next) { n++; if (m->len == 0 || m->len > 100) { DIE("message of %u bytes", m->len); } } }
int main(void) {
	uint8_t f[4] = {0x48, 0x6b, 0x10, 0x33}, g[3] = {1, 2, 3};
	s_flags = DIAG_L1_DOESL2FRAME;
	struct diag_l2_conn *c = s_start(DIAG_L1_J1850_VPW, DIAG_L2_PROT_SAEJ1850, 0, 0, 0x10, 0xf1);
	if (!c) { DIE("start"); }
	q_bytes(f, 4); q_bytes(g, 3);
	diag_l2_recv(c, 100, cb, NULL);
	_exit(0);
}''', "a frame that consists of a header and CRC only", "an empty message is delivered")
SEED("S13a", "C13", "diag_l1.c", [("			if (diag_l0_recv(dl0d, duplexbuf, len, 300+len) != (int) len) {", "			if (diag_l0_recv(dl0d, duplexbuf, len, 300+len) <= 0) {"), ("memcmp(duplexbuf, data, len) !=0)", "memcmp(duplexbuf, data, len - (len > 4)) !=0)")],
 H + '''static void echo(const uint8_t *p, size_t n) { uint8_t b[64]; memcpy(b, p, n); b[n - 1] ^= 1; q_bytes(b, n); }
int main(void) {
	s_flags = DIAG_L1_BLOCKDUPLEX | DIAG_L1_DOESP4WAIT; s_onsend = echo;
	diag_init();
	uint8_t d[6] = {1, 2, 3, 4, 5, 6};
	if (diag_l1_send(&s_dev, d, 6, 0) == 0) { DIE("a corrupted echo was accepted"); }
	return 0;
}''', "block echo of 5 or more bytes whose last byte is corrupted", "the echo comparison skips the last byte")
SEED("S13b", "C13", "diag_l1.c", [("			dp++;\n\n			if (p4) {", "			dp++;\n\n			if (p4 > 1 && len) {")],
 H + '''static unsigned long t0; static unsigned long last, gap[8]; static int n;
static void snd(const uint8_t *p, size_t k) { unsigned long t = diag_os_getms(); if (n && n < 9) { gap[n - 1] = t - last; } n++; last = t; q_bytes(p, k); }
int main(void) {
	s_flags = DIAG_L1_HALFDUPLEX; s_onsend = snd;
	diag_init();
	uint8_t d[200]; memset(d, 7, 200);
	t0 = diag_os_getms();
	if (diag_l1_send(&s_dev, d, 200, 1)) { DIE("send"); }
	t0 = diag_os_getms() - t0;
	if (t0 < 150) { DIE("200 bytes with 1 ms gaps took only %lu ms", t0); }
	return 0;
}''', "byte-wise sending with the smallest gap", "no gap is made when 1 ms is asked for")
SEED("S20a", "C20", "diag_general.c", [("	for (i = 0; i < ARRAY_SIZE(edesc); i++) {", "	for (i = 0; i < ARRAY_SIZE(edesc) - 1; i++) {")],
 H + '''int main(void) {
	if (strstr(diag_errlookup(DIAG_ERR_BADCFG), "llegal")) { DIE("no text"); }
	return 0;
}''', "the last code of the table", "the text of a valid code is not found")
