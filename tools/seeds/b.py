H = '#include "seed_l0.h"\n'
I9 = '''	uint8_t kb[] = {0x08, 0x08}; uint8_t ia = (uint8_t)~0x33;
	s_flags = DIAG_L1_SLOW | DIAG_L1_DOESP4WAIT;
	q_bytes(kb, 2); q_bytes(&ia, 1);
	struct diag_l2_conn *c = s_start(DIAG_L1_ISO9141, DIAG_L2_PROT_ISO9141, DIAG_L2_TYPE_SLOWINIT, 10400, 0x33, 0xf1);
'''
SEED("S07a", "C07", "diag_l2_iso9141.c", [("		} else if (dp->rxoffset == MAXLEN_ISO9141) {", "		} else if (dp->rxoffset >= MAXLEN_ISO9141 - 1) {")],
 H + '''static int n; static unsigned len;
static void cb(void *h, struct diag_msg *m) { len = m->len; for (; m; m = m->next) { n++; } }
int main(void) {
''' + I9 + '''	if (!c) { DIE("start"); }
	uint8_t f[11] = {0x48, 0x6b, 0x10, 0x41, 0, 1, 2, 3, 4, 5, 0}; for (int i = 0; i < 10; i++) { f[10] += f[i]; }
	q_reset(); q_bytes(f, 10); q_bytes(f + 10, 1);
	int rv = diag_l2_recv(c, 100, cb, NULL);
	if (rv != 0 || n != 1 || len != 7) { DIE("rv %d, %d messages, len %u", rv, n, len); }
	_exit(0);
}''', "a maximum-length frame whose last byte arrives in a separate read", "the last byte is split off into a frame of its own")
SEED("S07b", "C07", "diag_l2_iso9141.c", [("	if ( (kb1 != kb2) || ( (kb1 != 0x08) && (kb1 != 0x94) ) ) {", "	if ( (kb1 != 0x08 || kb1 != kb2) && (kb1 != 0x94) ) {")],
 H + '''int main(void) {
''' + I9.replace("{0x08, 0x08}", "{0x94, 0x08}") + '''	if (c) { DIE("session with key bytes 94 08"); }
	_exit(0);
}''', "an ECU answering key bytes 94 xx", "a session is opened with unknown key bytes")
MB = '''	uint8_t kb[] = {0xC2, 0xCD};
	s_flags = DIAG_L1_SLOW | DIAG_L1_DOESP4WAIT;
	q_bytes(kb, 2); q_tmo();
	struct diag_l2_conn *c = s_start(DIAG_L1_ISO9141, DIAG_L2_PROT_MB1, DIAG_L2_TYPE_SLOWINIT, 9600, 0x11, 0xf1);
	if (!c) { DIE("start"); }
'''
SEED("S09a", "C09", "diag_l2_mb1.c", [("	if (data[len-1] != ((cksum>>8) & 0xff)) {", "	if (data[len-1] != ((cksum>>8) & 0x7f)) {")],
 H + '''static int n;
static void cb(void *h, struct diag_msg *m) { n++; }
int main(void) {
''' + MB + '''	uint8_t f[255]; memset(f, 0xff, 253); uint16_t s = 0; for (int i = 0; i < 253; i++) { s += f[i]; } f[253] = s; f[254] = s >> 8;
	q_reset(); q_bytes(f, 255);
	int rv = diag_l2_recv(c, 100, cb, NULL);
	if (rv != 0 || n != 1) { DIE("rv %d", rv); }
	_exit(0);
}''', "a long message whose byte sum reaches 0x8000", "an intact message is refused")
SEED("S09b", "C09", "diag_l2_mb1.c", [("	if (data[2] > len) {", "	if (data[2] > len + (len > 8 ? 1 : 0)) {")],
 H + '''static int n; static unsigned len;
static void cb(void *h, struct diag_msg *m) { n++; len = m->len; }
int main(void) {
''' + MB + '''	uint8_t f[12] = {1, 2, 12, 4, 5, 6, 7, 8, 9, 10}; uint16_t s = 0; for (int i = 0; i < 10; i++) { s += f[i]; } f[10] = s; f[11] = s >> 8;
	q_reset(); q_bytes(f, 11); q_bytes(f + 11, 1);
	int rv = diag_l2_recv(c, 100, cb, NULL);
	if (rv != 0 || n != 1 || len != 8) { DIE("rv %d", rv); }
	_exit(0);
}''', "a message of more than 8 bytes whose last byte arrives separately", "the message is taken as complete one byte early")
SEED("S12a", "C12", "diag_l2_raw.c", [("	if (rv <= 0) { /* Failure", "	if (rv <= 0 || rv >= MAXRBUF) { /* Failure")],
 H + '''static unsigned len = 7;
static void cb(void *h, struct diag_msg *m) { len = m->len; }
int main(void) {
	s_flags = DIAG_L1_SLOW | DIAG_L1_DOESP4WAIT;
	struct diag_l2_conn *c = s_start(DIAG_L1_RAW, DIAG_L2_PROT_RAW, 0, 10400, 0x33, 0xf1);
	if (!c) { DIE("start"); }
	static uint8_t f[MAXRBUF];
	q_reset(); q_bytes(f, MAXRBUF);
	int rv = diag_l2_recv(c, 100, cb, NULL);
	if (rv != 0 || len != MAXRBUF) { DIE("rv %d len %u", rv, len); }
	_exit(0);
}''', "a read that fills the receive buffer exactly", "nothing is delivered")
