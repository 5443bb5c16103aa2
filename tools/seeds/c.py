H = '#include "seed_l0.h"\n'
D2 = '''	s_flags = DIAG_L1_DOESFULLINIT | DIAG_L1_DOESSLOWINIT | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESL2FRAME | DIAG_L1_NOTTY;
	struct diag_l2_conn *c = s_start(DIAG_L1_ISO9141, DIAG_L2_PROT_D2, DIAG_L2_TYPE_SLOWINIT, 10400, 0x7a, 0x13);
	if (!c) { DIE("start"); }
'''
SEED("S11a", "C11", "diag_l2_d2.c", [("rmsg->data[0]==0x7e && rmsg->data[1]==msg->data[0] && rmsg->data[2]==0x23", "rmsg->data[0]==0x7e && rmsg->data[2]==0x23")],
 H + '''int main(void) {
''' + D2 + '''	uint8_t d[] = {0xb9, 0xf0}, a[] = {0x84, 0x13, 0x7a, 0x7e, 0xa1, 0x23, 0}, b[] = {0x83, 0x13, 0x7a, 0xf9, 0xf0, 0};
	struct diag_msg m = {0}; m.data = d; m.len = 2; int e = 0;
	q_reset(); q_bytes(a, 7); q_bytes(b, 6);
	struct diag_msg *r = diag_l2_request(c, &m, &e);
	if (!r || r->len != 3 || r->data[1] != 0xa1) { DIE("response to another service taken as busy"); }
	_exit(0);
}''', "a refusal with code 23 that names another service", "it is skipped as if it were a busy answer to this request")
SEED("S11b", "C11", "diag_l2_d2.c", [("	buf[2] = msg->src ? msg->src : dp->srcaddr;", "	buf[2] = msg->dest ? msg->src : dp->srcaddr;")],
 H + '''int main(void) {
''' + D2 + '''	uint8_t d[] = {0xb9, 0xf0};
	struct diag_msg m = {0}; m.data = d; m.len = 2; m.dest = 0x11;
	q_reset();
	if (diag_l2_send(c, &m)) { DIE("send"); }
	if (s_log[0].b[1] != 0x11 || s_log[0].b[2] != 0x13) { DIE("source %02x", s_log[0].b[2]); }
	_exit(0);
}''', "a request with its own destination and the default source", "it leaves with source address 0")
SEED("S11c", "C11", "diag_l2_d2.c", [("	if (rv < 5) {\n", "	if (rv < 4) {\n")],
 H + '''static int n; static void cb(void *h, struct diag_msg *m) { n++; }
int main(void) {
''' + D2 + '''	uint8_t b[] = {0x81, 0x13, 0x7a, 0x0e};
	q_reset(); q_bytes(b, 4);
	int rv = diag_l2_recv(c, 100, cb, NULL);
	if (rv >= 0 || n) { DIE("empty frame delivered"); }
	_exit(0);
}''', "a frame of header and checksum only", "an empty message is delivered")
TWO = '''static struct diag_l0_device dev2 = { NULL, &s0, 0 };
'''
SEED("S14a", "C14", "diag_l2.c", [("	LL_FOREACH(l2internal.dl2conn_list, d_l2_conn) {\n		if (d_l2_conn->diag_link->l2_dl0d == dl0d) {", "	if ((d_l2_conn = l2internal.dl2conn_list) != NULL) {\n		if (d_l2_conn->diag_link->l2_dl0d == dl0d) {")],
 H + TWO + '''int main(void) {
	struct diag_l2_conn *a = s_start(DIAG_L1_RAW, DIAG_L2_PROT_RAW, 0, 10400, 0x33, 0xf1);
	if (!a || diag_l2_open(&dev2, DIAG_L1_RAW)) { DIE("open"); }
	struct diag_l2_conn *b = diag_l2_StartCommunications(&dev2, DIAG_L2_PROT_RAW, 0, 10400, 0x33, 0xf1);
	if (!b) { DIE("start"); }
	if (diag_l2_close(&s_dev) == 0 || diag_l2_close(&dev2) == 0) { DIE("device in use was closed"); }
	_exit(0);
}''', "two devices in use, the older one being closed", "a device is closed under a running session")
SEED("S14b", "C14", "diag_l2.c", [
 ("	/* Now do protocol version of StartCommunications */\n", "	/* attach connection info to our main list */\n	LL_PREPEND(l2internal.dl2conn_list, d_l2_conn);\n\n	/* Now do protocol version of StartCommunications */\n"),
 ("	/* And attach connection info to our main list */\n	LL_PREPEND(l2internal.dl2conn_list, d_l2_conn);\n", ""),
 ("		          FLFMT \"protocol startcomms returned %d\\n\", FL, rv);\n\n		free(d_l2_conn);", "		          FLFMT \"protocol startcomms returned %d\\n\", FL, rv);\n\n		l2internal.dl2conn_list = NULL;\n		free(d_l2_conn);")],
 H + TWO + '''int main(void) {
	struct diag_l2_conn *a = s_start(DIAG_L1_RAW, DIAG_L2_PROT_RAW, 0, 10400, 0x33, 0xf1);
	if (!a || diag_l2_open(&dev2, DIAG_L1_RAW)) { DIE("open"); }
	s_ioctlrv = DIAG_ERR_GENERAL;
	struct diag_l2_conn *b = diag_l2_StartCommunications(&dev2, DIAG_L2_PROT_RAW, 0, 10400, 0x33, 0xf1);
	if (b) { DIE("started"); }
	if (diag_l2_close(&s_dev) == 0) { DIE("device in use was closed"); }
	_exit(0);
}''', "a failed session start on one device while another has a session", "the other session is forgotten")
SEED("S14c", "C14", "diag_l2.c", [("		expired = ((now - d_l2_conn->tlast) > d_l2_conn->tinterval)? 1:0;", "		expired = ((unsigned short)(now - d_l2_conn->tlast) > d_l2_conn->tinterval)? 1:0;")],
 H + '''int main(void) {
	uint8_t kb[] = {0xC2, 0xCD};
	s_flags = DIAG_L1_SLOW | DIAG_L1_DOESP4WAIT;
	q_bytes(kb, 2); q_tmo();
	struct diag_l2_conn *c = s_start(DIAG_L1_ISO9141, DIAG_L2_PROT_MB1, DIAG_L2_TYPE_SLOWINIT, 9600, 0x11, 0xf1);
	if (!c) { DIE("start"); }
	q_reset();
	c->tlast = diag_os_getms() - 65600;   /* idle for 65.6 s */
	diag_l2_timer();
	if (s_nlog < 1) { DIE("no keep-alive"); }
	_exit(0);
}''', "a timer tick that comes more than a minute late", "no keep-alive is sent")
VB = '''static int blk(uint8_t *q, uint8_t ctr, uint8_t type, const uint8_t *d, int n) { q[0] = n + 3; q[1] = ctr; q[2] = type; if (n) { memcpy(q + 3, d, n); } q[n + 3] = 3; return n + 4; }
static void qb(uint8_t ctr, uint8_t type, const uint8_t *d, int n) { uint8_t q[260]; q_bytes(q, blk(q, ctr, type, d, n)); }
static void qa(uint8_t ctr) { uint8_t c[3] = {(uint8_t)~3, (uint8_t)~ctr, (uint8_t)~9}; for (int i = 0; i < 3; i++) { q_bytes(c + i, 1); } }
static int n; static unsigned len; static uint8_t lastb;
static void cb(void *h, struct diag_msg *m) { for (; m; m = m->next) { n++; len = m->len; lastb = m->len ? m->data[m->len - 1] : 0; } }
'''
VST = '''	uint8_t kb[] = {0x01, 0x8a}, id[] = {'A', 'B'}; int e = 0;
	s_flags = FL;
	q_bytes(kb, 1); q_bytes(kb + 1, 1); qb(1, 0xf6, id, 2); if (!(s_flags & DIAG_L1_DOESL2FRAME)) { qa(2); } qb(3, 9, NULL, 0);
	struct diag_l2_conn *c = s_start(DIAG_L1_ISO9141, DIAG_L2_PROT_VAG, DIAG_L2_TYPE_SLOWINIT, 10400, 0x01, 0xf1);
	if (!c) { DIE("start"); }
	(void)e; q_reset();
'''
SEED("S10a", "C10", "diag_l2_vag.c", [("			//reset the counter of No Ack Retry messages received in a row\n			na_retry_cnt = 0;\n", "")],
 H + VB + '''int main(void) {
''' + VST.replace("FL", "DIAG_L1_DOESL2FRAME") + '''	struct diag_msg m = {0}; m.type = 0x07;
	uint8_t d[] = {1, 2}; int ctr = 5;
	for (int k = 0; k < 3; k++) {
		qb(ctr, 0xfc, d, 2); ctr += 2;
		for (int i = 0; i < 3; i++) { uint8_t na = ctr - 1; qb(ctr, 0x0a, &na, 1); ctr += 2; }
	}
	qb(ctr, 9, NULL, 0);
	struct diag_msg *r = diag_l2_request(c, &m, &e);
	if (!r || !r->next || !r->next->next) { DIE("telegram lost, error %d", e); }
	_exit(0);
}''', "several blocks of one telegram, each followed by fewer than five refused acknowledges", "the telegram is given up although no five refusals came in a row")
SEED("S10b", "C10", "diag_l2_vag.c", [("dp->rxbuf[1] != dp->seq_nr+1)", "dp->rxbuf[1] < dp->seq_nr+1)")],
 H + VB + '''int main(void) {
''' + VST.replace("FL", "DIAG_L1_SLOW | DIAG_L1_DOESSLOWINIT") + '''	struct diag_msg m = {0}; m.type = 0x09;
	uint8_t q[2] = {0, 0}, d[] = {1, 2}; uint8_t c0 = (uint8_t)~3, c1 = (uint8_t)~4, c2 = (uint8_t)~9;
	q_bytes(&c0, 1); q_bytes(&c1, 1); q_bytes(&c2, 1);       /* complements of our acknowledge */
	qb(9, 0xfc, d, 2);                                        /* counter 9 instead of 5 */
	(void)q;
	int before = s_nlog;
	c0 = (uint8_t)~4; c1 = (uint8_t)~6; c2 = (uint8_t)~0x0a; uint8_t c3 = (uint8_t)~9;
	q_bytes(&c0, 1); q_bytes(&c1, 1); q_bytes(&c2, 1); q_bytes(&c3, 1);
	q_err(DIAG_ERR_GENERAL);
	(void)before;
	diag_l2_request(c, &m, &e);
	for (int i = 0; i + 2 < s_nlog; i++) { if (s_log[i].b[0] == 4 && s_log[i + 2].b[0] == 0x0a) { _exit(0); } }
	DIE("block with a wrong counter was not refused");
}''', "a received block whose counter is ahead by more than one", "the block is acknowledged instead of refused")
SEED("S10c", "C10", "diag_l2_vag.c", [("					if (dp->rxoffset < dp->rxbuf[0] || rv", "					if (dp->rxoffset < dp->rxbuf[0] - 1 || rv")],
 H + VB + '''int main(void) {
''' + VST.replace("FL", "DIAG_L1_SLOW | DIAG_L1_DOESSLOWINIT") + '''	if (diag_l2_recv(c, 0, cb, NULL)) { DIE("identification"); }
	struct diag_msg m = {0}; m.type = 0x09;
	uint8_t c0 = (uint8_t)~3, c1 = (uint8_t)~4, c2 = (uint8_t)~9, q[8], d[] = {1, 2};
	q_bytes(&c0, 1); q_bytes(&c1, 1); q_bytes(&c2, 1);
	blk(q, 5, 0xfc, d, 2);
	q_bytes(q, 4); q_tmo(); q_tmo(); q_tmo(); q_tmo();        /* the ECU falls silent before the last data byte */
	if (diag_l2_send(c, &m)) { DIE("send"); }
	n = 0;
	int rv = diag_l2_recv(c, 0, cb, NULL);
	int ackd = 0; for (int i = 3; i < s_nlog; i++) { if (s_log[i].b[0] == (uint8_t)~3) { ackd = 1; } }
	if (rv != DIAG_ERR_TIMEOUT || ackd) { DIE("broken-off block taken as complete, rv %d", rv); }
	_exit(0);
}''', "an ECU that falls silent exactly before the last data byte of a block", "the block is completed with an invented byte")
