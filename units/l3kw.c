/* C15: ISO 14230 and VAG application layer: texts, receive, send. Real code: diag_l3_iso14230.c or diag_l3_vag.c */
#ifndef SLOTCAP
#define SLOTCAP 8
#endif
#include "stubs_l1.h"
#include "diag_l3.h"
#include "txt.h"
#ifdef DIAG_DBGM
#undef DIAG_DBGM
#undef DIAG_DBGMDATA
#endif
#define DIAG_DBGM(...) do { } while (0)
#define DIAG_DBGMDATA(...) do { } while (0)
#ifdef VAGL3
#include "diag_l3_vag.c"
#else
#include "diag_l3_iso14230.c"
#endif
#undef snprintf
#ifndef LEN
#define LEN 3
#endif
#ifndef LO
#define LO 0
#define HI 255
#endif
#ifndef TYPE
#define TYPE 5
#endif
#ifndef WANT
#define WANT ""
#endif
#ifndef BS
#define BS 200
#endif
static struct diag_msg g_m; static uint8_t g_d[8]; static char out[BS]; static struct diag_l3_conn g_c; static struct diag_l2_conn g_l2;
int diag_l3_base_start(struct diag_l3_conn *c) { return 0; }
int diag_l3_base_stop(struct diag_l3_conn *c) { return 0; }
int diag_l3_base_send(struct diag_l3_conn *c, struct diag_msg *m) { return 0; }
int diag_l3_base_recv(struct diag_l3_conn *c, unsigned t, void (*cb)(void *, struct diag_msg *), void *h) { return 0; }
struct diag_msg *diag_l3_base_request(struct diag_l3_conn *c, struct diag_msg *m, int *e) { return NULL; }
static struct diag_msg *msg(unsigned n) { g_m.len = n; g_m.data = n ? g_d + (8 - n) : NULL; return &g_m; }
static struct { unsigned n, calls; int rv; uint8_t fmt; struct diag_msg *m; void *h; void (*cb)(void *, struct diag_msg *); unsigned tmo; struct diag_l2_conn *c; unsigned sends; } R = { 0 };
int diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m) { R.sends++; R.c = c; R.m = m; return R.rv; }
static unsigned kb1, kb2;
int diag_l2_ioctl(struct diag_l2_conn *c, unsigned cmd, void *d) { VP_CHECK("the session's data", c == &g_l2 && cmd == DIAG_IOCTL_GET_L2_DATA); struct diag_l2_data *l = d; l->kb1 = (uint8_t)kb1; l->kb2 = (uint8_t)kb2; l->physaddr = 0; return 0; }
int diag_l2_recv(struct diag_l2_conn *c, unsigned tmo, void (*cb)(void *, struct diag_msg *), void *h) { R.n++; R.c = c; R.tmo = tmo; if (R.rv == 0) { cb(h, &g_m); } return R.rv; }
static void u_cb(void *h, struct diag_msg *m) { R.calls++; VP_CHECK("the message and the caller's handle", h == (void *)&R && m == &g_m); }
#ifndef VAGL3
static const struct { uint8_t id; const char *s; } SID[] = {
	{ 0x10, "startDiagnosticSession" }, { 0x11, "ecuReset" }, { 0x12, "readFreezeFrameData" }, { 0x13, "readDiagnosticTroubleCodes" }, { 0x14, "clearDiagnosticInformation" },
	{ 0x17, "readStatusOfDiagnosticTroubleCodes" }, { 0x18, "readDiagnosticTroubleCodesByStatus" }, { 0x1A, "readEcuId" }, { 0x20, "stopDiagnosticSession" }, { 0x21, "readDataByLocalId" },
	{ 0x22, "readDataByCommonId" }, { 0x23, "readMemoryByAddress" }, { 0x25, "stopRepeatedDataTransmission" }, { 0x26, "setDataRates" }, { 0x27, "securityAccess" }, { 0x2C, "dynamicallyDefineLocalId" },
	{ 0x2E, "writeDataByCommonId" }, { 0x2F, "inputOutputControlByCommonId" }, { 0x30, "inputOutputControlByLocalId" }, { 0x31, "startRoutineByLocalID" }, { 0x32, "stopRoutineByLocalID" },
	{ 0x33, "requestRoutineResultsByLocalId" }, { 0x34, "requestDownload" }, { 0x35, "requestUpload" }, { 0x36, "transfer data" }, { 0x37, "request transfer exit" }, { 0x38, "startRoutineByAddress" },
	{ 0x39, "stopRoutineByAddress" }, { 0x3A, "requestRoutineResultsByAddress" }, { 0x3B, "writeDataByLocalId" }, { 0x3D, "writeMemoryByAddress" }, { 0x3E, "testerPresent" }, { 0x80, "EscCode" },
	{ 0x81, "startCommunication" }, { 0x82, "stopCommunication" }, { 0x83, "accessTimingParameters" } };
static const struct { uint8_t id; const char *s; } NEG[] = {
	{ 0x10, "generalReject" }, { 0x11, "serviceNotSupported" }, { 0x12, "subFunctionNotSupported-Invalid Format" }, { 0x21, "busy-repeatRequest" }, { 0x22, "conditionsNoteCorrectOrRequestSequenceError" },
	{ 0x23, "routineNotCompleteOrServiceInProgress" }, { 0x31, "requestOutOfRange" }, { 0x33, "securityAccessDenied-securityAccessRequested" }, { 0x35, "invalidKey" }, { 0x36, "exceedNumberOfAttempts" },
	{ 0x37, "requiredTimeDelayNotExpired" }, { 0x40, "downloadNotAccepted" }, { 0x41, "improperDownloadType" }, { 0x42, "canNotDownloadToSpecifiedAddress" }, { 0x43, "canNotDownloadNumberOfBytesRequested" },
	{ 0x50, "uploadNotAccepted" }, { 0x51, "improperUploadType" }, { 0x52, "canNotUploadFromSpecifiedAddress" }, { 0x53, "canNotUploadNumberOfBytesRequested" }, { 0x71, "transferSuspended" },
	{ 0x72, "transferAborted" }, { 0x74, "illegalAddressInBlockTransfer" }, { 0x75, "illegalByteCountInBlockTransfer" }, { 0x76, "illegalBlockTrasnferType" }, { 0x77, "blockTransferDataChecksumError" },
	{ 0x78, "requestCorrectyRcvd-RspPending" }, { 0x79, "incorrectByteCountDuringBlockTransfer" }, { 0x80, "serviceNotSupportedInActiveDiagnosticMode//Mfg-Specific" } };
static const char *sid(unsigned id) { for (unsigned i = 0; i < sizeof(SID) / sizeof(SID[0]); i++) { if (SID[i].id == id) { return SID[i].s; } } return "Unknown SID"; }
static const char *neg(unsigned id) { for (unsigned i = 0; i < sizeof(NEG) / sizeof(NEG[0]); i++) { if (NEG[i].id == id) { return NEG[i].s; } } return NULL; }
static char *cat(char *p, const char *s) { while (*s) { *p++ = *s++; } *p = 0; return p; }
static char *hex(char *p, unsigned v) { *p++ = '0'; *p++ = 'x'; *p++ = vf_hexU[v >> 4]; *p++ = vf_hexU[v & 15]; *p = 0; return p; }
static char want[208];
static void same(void) {
	size_t n = tx_len(want, sizeof(want));
	if (n >= BS) { want[BS - 1] = 0; }
	ENSURES("the text of this response, cut off at the end of the buffer", tx_eq(out, want, BS));
}
/* every negative response: refused service LO..HI with one reason, every reason LO..HI with one service */
void h_negs(void) {
	for (unsigned v = LO; v <= HI; v++) {
		char *p;
		struct diag_msg *m = msg(3);
		m->data[0] = 0x7F;
#ifdef REASONS
		m->data[1] = 0x1A; m->data[2] = (uint8_t)v;
		p = cat(cat(cat(want, "General_Error, Requested_SID_"), sid(0x1A)), " Error_");
		if (neg(v)) { cat(p, neg(v)); } else { hex(cat(p, "Unknown Response code "), v); }
#else
		m->data[1] = (uint8_t)v; m->data[2] = 0x33;
		cat(cat(cat(cat(want, "General_Error, Requested_SID_"), sid(v)), " Error_"), neg(0x33));
#endif
		ENSURES("the buffer is the result", diag_l3_iso14230_decode_response(m, out, BS) == out);
		same();
	}
}
/* positive (and impossible) responses LO..HI of LEN bytes */
void h_pos(void) {
	for (unsigned v = LO; v <= HI; v++) {
		if (v == 0x7F && LEN >= 3) { continue; }
		struct diag_msg *m = msg(LEN);
		for (unsigned i = 1; i < LEN; i++) { m->data[i] = 0xA5; }
		if (LEN > 0) { m->data[0] = (uint8_t)v; }
		if (LEN == 0) { cat(want, "Empty response"); }
		else if (v == 0x7F) { cat(want, "General_Error, no response code"); }
		else if (v == 0xC1) { cat(want, "StartCommunications_OK"); }
		else if (v == 0xC2) { cat(want, "StopCommunications_OK"); }
		else if (v == 0xC3) { cat(want, "AccessTimingParameters_OK"); }
		else if (v & 0x40) {
			char *p = cat(cat(cat(want, "Positive response, "), sid(v & 0xBF)), " ");
			if (LEN >= 2 && v == 0x5A) { hex(cat(p, "identOption "), 0xA5); }
			if (LEN >= 2 && v == 0x61) { hex(cat(p, "RLOCID "), 0xA5); }
		} else { hex(cat(want, "Unknown_response_code "), v); }
		diag_l3_iso14230_decode_response(m, out, BS);
		same();
		diag_l3_iso14230_decode(&g_c, m, out, BS);
		ENSURES("direction of the message", tx_eq(out, LEN > 0 && (v & 0x40) ? "ISO14230 response " : "ISO14230 request ", BS));
	}
}
/* arbitrary contents: no access outside message or buffer, always terminated */
void h_any(void) {
	struct diag_msg *m = msg(LEN);
	for (unsigned i = 0; i < LEN; i++) { m->data[i] = vp_u8(); }
	diag_l3_iso14230_decode_response(m, out, BS);
	ENSURES("a terminated text", tx_len(out, BS) < BS);
}
void h_recv(void) {
	g_c.d_l3l2_conn = &g_l2; g_c.d_l3l2_flags = vp_int();
	msg(2)->fmt = vp_u8();
	g_d[6] = 0xC1; g_d[7] = vp_u8();
	unsigned t = vp_uint();
	R.rv = vp_okerr();
	int rv = diag_l3_iso14230.diag_l3_proto_recv(&g_c, t, u_cb, &R);
	if (!(g_c.d_l3l2_flags & DIAG_L2_FLAG_FRAMED)) { ENSURES("only with a session that delivers whole messages", rv < 0 && R.n == 0 && R.calls == 0); return; }
	ENSURES("received once from the session, with the caller's time-out", R.n == 1 && R.c == &g_l2 && R.tmo == t && rv == R.rv);
	ENSURES("the message is handed to the caller when it is a whole one", R.calls == (R.rv == 0 && (g_m.fmt & DIAG_FMT_FRAMED)));
	VP_COVER("delivered", R.calls == 1);
}
void h_send(void) {
	g_c.d_l3l2_conn = &g_l2;
	g_m.len = vp_uint(); g_m.fmt = vp_u8(); g_m.src = vp_u8(); g_m.dest = vp_u8(); g_m.type = vp_u8(); g_m.data = g_d;
	struct diag_msg o = g_m;
	R.rv = vp_okerr();
	int rv = diag_l3_iso14230.diag_l3_proto_send(&g_c, &g_m);
	ENSURES("the message is sent unchanged, the result reported", R.sends == 1 && R.c == &g_l2 && R.m == &g_m && rv == R.rv && g_m.len == o.len && g_m.fmt == o.fmt && g_m.src == o.src && g_m.dest == o.dest && g_m.type == o.type && g_m.data == o.data);
}
#else
void h_vstart(void) {
	g_c.d_l3l2_conn = &g_l2; kb1 = vp_u8(); kb2 = vp_u8();
	int rv = diag_l3_vag.diag_l3_proto_start(&g_c);
	ENSURES("exactly the VAG key bytes are accepted", (rv == 0) == (kb1 == 0x01 && kb2 == 0x8A) && (rv == 0 || rv == DIAG_ERR_WRONGKB));
}
void h_vdec(void) {
	struct diag_msg *m = msg(LEN);
	m->type = TYPE;
	for (unsigned i = 0; i < LEN; i++) { m->data[i] = i == 0 ? 0x07 : i == 1 ? 0xAB : 0x30; }
	for (unsigned i = 0; i < BS; i++) { out[i] = 'x'; }
	diag_l3_vag_decode(&g_c, m, out, BS);
	ENSURES("command name and the bytes of the message", tx_eq(out, WANT, BS));
}
#endif
