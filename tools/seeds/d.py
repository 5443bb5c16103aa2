RAWDEV = '''static struct diag_l2_conn *raw(struct diag_l0_device *d) {
	if (diag_l2_open(d, DIAG_L1_RAW)) { DIE("open"); }
	struct diag_l2_conn *c = diag_l2_StartCommunications(d, DIAG_L2_PROT_RAW, 0, 10400, 0x33, 0xf1);
	if (!c) { DIE("start"); }
	return c;
}
static const uint8_t pid0[] = {0x41, 0x00, 0xff, 0xff, 0xff, 0xff};
static struct diag_l3_conn *j1979(struct diag_l2_conn *c) {
	q_reset(); q_bytes(pid0, 6);
	struct diag_l3_conn *l = diag_l3_start("SAEJ1979", c);
	if (!l) { DIE("L3 start"); }
	q_reset();
	return l;
}
'''
TW = '''static struct diag_l0_device dev2 = { NULL, &s0, 0 };
'''
SEED("S15a", "C15", "diag_l3.c", [("		if (conn->d_l3l1_flags & DIAG_L1_DOESKEEPALIVE) {\n			continue;", "		if (conn->d_l3l1_flags & DIAG_L1_DOESKEEPALIVE) {\n			break;")],
 H + RAWDEV + TW + '''int main(void) {
	diag_init();
	struct diag_l3_conn *a = j1979(raw(&s_dev));
	s_flags = DIAG_L1_DOESKEEPALIVE;
	j1979(raw(&dev2));
	a->timer = diag_os_getms() - 4000; s_nlog = 0; q_reset(); q_bytes(pid0, 6);
	diag_l3_timer();
	if (s_nlog == 0) { DIE("no keep-alive for the first connection"); }
	_exit(0);
}''', "two connections, the newer one on an interface that keeps itself alive", "the older connection is never kept alive")
SEED("S15b", "C15", "diag_l3.c", [("	LL_DELETE(diag_l3_list, d_l3_conn);\n", "	if (diag_l3_list == d_l3_conn || d_l3_conn->next == NULL) {\n		diag_l3_list = d_l3_conn->next;\n	} else {\n		LL_DELETE(diag_l3_list, d_l3_conn);\n	}\n")],
 H + RAWDEV + TW + '''int main(void) {
	diag_init();
	struct diag_l3_conn *a = j1979(raw(&s_dev)), *b = j1979(raw(&dev2));
	if (diag_l3_stop(a)) { DIE("stop"); }
	b->timer = diag_os_getms() - 4000; s_nlog = 0; q_reset(); q_bytes(pid0, 6);
	diag_l3_timer();
	if (s_nlog == 0) { DIE("no keep-alive for the remaining connection"); }
	_exit(0);
}''', "two connections, the older one stopped first", "the newer one is forgotten and never kept alive")
SEED("S15d", "C15", "diag_l3_iso14230.c", [("			         l3_iso14230_sidlookup(msg->data[0] & ~0x40));\n			if (msg->len < 2) {", "			         l3_iso14230_sidlookup(msg->data[0] & 0x3f));\n			if (msg->len < 2) {")],
 H + '''int main(void) {
	uint8_t d[] = {0xc1, 0x55, 0x66}; char t[200], want[200], *p; struct diag_msg m = {0};
	m.data = d; m.len = 3;
	d[0] = 0xe3;
	diag_l3_iso14230_decode_response(&m, t, sizeof(t));
	if (strcmp(t, "Positive response, Unknown SID ")) { DIE("%s", t); }
	_exit(0);
}''', "a positive response to a service above 0x80", "it is described as the response to another service")
SEED("S16a", "C16", "diag_l3_saej1979.c", [("		} else if (data[1] <= 4) {", "		} else if ((data[1] & 0x1f) <= 4) {")],
 H + RAWDEV + '''static int n, len[4]; static void cb(void *h, struct diag_msg *m) { if (n < 4) { len[n++] = m->len; } }
int main(void) {
	diag_init();
	struct diag_l3_conn *a = j1979(raw(&s_dev));
	uint8_t r[] = {0x45, 0x21, 0x01, 0x10, 0x20, 0x30};
	q_bytes(r, 6);
	diag_l3_recv(a, 50, cb, NULL);
	if (n != 1 || len[0] != 6) { DIE("%d messages, %d bytes", n, n ? len[0] : 0); }
	_exit(0);
}''', "an oxygen sensor test result with a test ID above 0x20", "the message is cut off and its rest taken as another one")
SEED("S16b", "C16", "diag_l3_saej1979.c", [("		if (badpacket || (sae_msglen <= l3i->rxoffset)) {", "		if (badpacket || (sae_msglen == l3i->rxoffset)) {")],
 H + RAWDEV + '''static int n, len[4]; static void cb(void *h, struct diag_msg *m) { if (n < 4) { len[n++] = m->len; } }
int main(void) {
	diag_init();
	struct diag_l3_conn *a = j1979(raw(&s_dev));
	uint8_t r[] = {0x41, 0x0d, 0x22, 0x41, 0x05, 0x50};
	q_bytes(r, 6);
	diag_l3_recv(a, 50, cb, NULL);
	diag_l3_recv(a, 50, cb, NULL);
	if (n != 2 || len[0] != 3 || len[1] != 3) { DIE("%d messages", n); }
	_exit(0);
}''', "two responses that arrive in one read from an unframed L2", "neither is delivered")
SEED("S16c", "C16", "diag_l3_saej1979.c", [("			    (msg->data[j + 1] == 0)) {\n				continue;", "			    (msg->data[j + 1] == 0)) {\n				break;")],
 H + RAWDEV + '''int main(void) {
	diag_init();
	struct diag_l3_conn *a = j1979(raw(&s_dev));
	uint8_t r[] = {0x43, 0x00, 0x00, 0x01, 0x30, 0x00, 0x00}; char t[100]; struct diag_msg m = {0};
	m.data = r; m.len = 7;
	diag_l3_decode(a, &m, t, sizeof(t));
	if (!strstr(t, "P0130")) { DIE("%s", t); }
	_exit(0);
}''', "a DTC response with an empty place before a trouble code", "the trouble code is not shown")
SEED("S16d", "C16", "diag_l3_saej1979.c", [("	if (l3i->src == 0) {\n		l3i->src = msg->src;", "	if (l3i->src != msg->src) {\n		l3i->src = msg->src;")],
 H + RAWDEV + '''int main(void) {
	diag_init();
	struct diag_l3_conn *a = j1979(raw(&s_dev));
	uint8_t d[] = {1, 5}; struct diag_msg m = {0}; m.data = d; m.len = 2; m.src = 0xf2;
	diag_l3_send(a, &m); m.src = 0xf3; diag_l3_send(a, &m);
	if (*(uint8_t *)a->l3_int != 0xf2 && *(uint8_t *)a->l3_int != 0xf1) { DIE("address %02x", *(uint8_t *)a->l3_int); }
	_exit(0);
}''', "sends with different source addresses", "keep-alives use the last one instead of the session's") if 0 else None
SEED("S19a", "C19", "diag_dtc.c", [('"%c%02X%02X ", area, data[0] & 0x3f, data[1]&0xff);', '"%c%X%02X ", area, data[0] & 0x3f, data[1]&0xff);')],
 H + '''int main(void) {
	uint8_t d[] = {0x04, 0x20}; char t[20];
	diag_dtc_decode(d, 2, NULL, NULL, dtc_proto_j2012, t, sizeof(t));
	if (strcmp(t, "P0420 ")) { DIE("%s", t); }
	_exit(0);
}'''.replace('int main', '#include "diag_dtc.h"\nint main'), "a code whose first digit is 0", "a digit is missing")
SEED("S19b", "C19", "diag_dtc.c", [("		if (len != 2) {", "		if (len < 1) {")],
 H + '''#include "diag_dtc.h"
int main(void) {
	uint8_t *d = malloc(1); d[0] = 4; char t[40];
	diag_dtc_decode(d, 1, NULL, NULL, dtc_proto_j2012, t, sizeof(t));
	if (t[1] >= '0' && t[1] <= '9') { DIE("%s", t); }
	_exit(0);
}''', "a code of one byte", "bytes behind it are shown as a code")
