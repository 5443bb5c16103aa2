/* C13: L1 send / receive over an arbitrary L0 driver. Real code: diag_l0.c diag_l1.c */
#define STUBS_NO_MS
#include "stubs_l1.h"
static unsigned long g_gap;        /* ms slept since the last L0 write */
void diag_os_millisleep(unsigned int ms) { g_gap += ms; }
unsigned long diag_os_getms(void) { return vp_ulong(); }
static int vp_memcmp(const void *a, const void *b, size_t n);
#define memcmp vp_memcmp
#define diag_l1_debug diag_l1_debug_
#define diag_l0_debug diag_l0_debug_
#include "diag_l0.c"
#include "diag_l1.c"
#undef diag_l1_debug
#undef diag_l0_debug
#undef memcmp

#ifndef MAXLEN
#define MAXLEN MAXRBUF
#endif
static unsigned g_k;
static uint8_t g_data[MAXLEN + 8];
static uint32_t g_flags;
static struct {
	size_t sent;                 /* bytes accepted by L0 so far */
	unsigned nsend, nrecv; bool failed; int rv;
	size_t echoed; bool echo_bad, echo_short;
	uint8_t wit; bool have_wit; size_t chunk;
	unsigned opens, closes, ioctls; int ioctl_rv;
} G;
static struct diag_l0_device g_dev;

/* memcmp contract: 0 iff equal everywhere; checked through witnesses */
static int vp_memcmp(const void *a, const void *b, size_t n) {
	const uint8_t *x = a, *y = b;
	VP_CHECK("memcmp.pre", VP_R_OK(a, n) && VP_R_OK(b, n));
#ifdef LEN
	for (size_t i = 0; i < n; i++) { if (x[i] != y[i]) { return 1; } }
	return 0;
#else
	bool differ = vp_bool();
	size_t j = vp_size();
	if (differ) {
		VP_ASSUME(j < n && x[j] != y[j]);
	} else {
		if (g_k < n) { VP_ASSUME(x[g_k] == y[g_k]); }
	}
#ifdef VP_REPLAY
	VP_ASSUME(differ == (memcmp(x, y, n) != 0));
#endif
	return differ ? 1 : 0;
#endif
}

static unsigned g_p4; static bool g_bytewise;
static int s_send(struct diag_l0_device *d, const void *data, size_t len) {
	const uint8_t *p = data;
	int rv = vp_okerr();
	VP_CHECK("L0 send: goes to this device", d == &g_dev);
	VP_CHECK("L0 send: at least one byte", len >= 1);
	VP_CHECK("L0 send: readable", VP_R_OK(data, len));
	VP_CHECK("nothing is sent after a failure", !G.failed);
	VP_CHECK("no more bytes than the caller asked for", G.sent + len <= MAXLEN);
	if (g_bytewise) {
		VP_CHECK("byte-wise transmission sends one byte at a time", len == 1);
		VP_CHECK("bytes go out in order", p[0] == g_data[G.nsend]);
		if (G.nsend > 0) { VP_CHECK("inter-byte gap P4 is waited", g_gap >= g_p4); }
		if (g_flags & DIAG_L1_HALFDUPLEX) { VP_CHECK("the echo of each byte is read before the next one", G.nrecv == G.nsend); }
	} else {
		VP_CHECK("block transmission is a single write", G.nsend == 0);
		VP_CHECK("block transmission: bytes unchanged", IMPLIES(g_k < len, p[g_k] == g_data[g_k]));
	}
	G.nsend++;
	G.chunk = len;
	g_gap = 0;
	if (rv != 0) { G.failed = true; G.rv = rv; } else { G.sent += len; }
	return rv;
}
static int s_recv(struct diag_l0_device *d, void *data, size_t len, unsigned timeout) {
	int rv = vp_int();
	uint8_t *p = data;
	VP_CHECK("L0 recv: goes to this device", d == &g_dev);
	VP_CHECK("L0 recv: writable", VP_W_OK(data, len));
	VP_ASSUME(rv >= -100 && rv <= (int)len);
	VP_CHECK("echo is read only after a successful write", !G.failed);
	G.nrecv++;
#ifdef LEN
	for (size_t i = 0; i < len; i++) { if ((int)i < rv) { p[i] = vp_u8(); if (p[i] != g_data[G.echoed + i]) { G.echo_bad = true; } } }
#else
	if (g_bytewise) {
		uint8_t b = vp_u8();
		if (rv == 1) { p[0] = b; if (b != g_data[G.nrecv - 1]) { G.echo_bad = true; } }
	} else {
		static uint8_t any[MAXRBUF];
		VP_BYTES(any, sizeof(any));
		if (rv > 0) { memcpy(p, any, (size_t)rv); G.wit = any[g_k < MAXRBUF ? g_k : 0]; G.have_wit = true; }
	}
#endif
	if (rv != (int)len) { G.echo_short = true; G.failed = true; } else { G.echoed += len; }
	if (G.echo_bad && g_bytewise) { G.failed = true; }
	return rv;
}
static uint32_t s_flags(struct diag_l0_device *d) { return g_flags; }
static int s_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) { G.ioctls++; return G.ioctl_rv; }
static int s_open(struct diag_l0_device *d, int p) { G.opens++; return G.rv; }
static void s_close(struct diag_l0_device *d) { G.closes++; }
static int s_new(struct diag_l0_device *d) { return 0; }
static void s_del(struct diag_l0_device *d) { }
static struct diag_l0 g_l0 = { "T", "T", 0, NULL, s_new, NULL, s_del, s_open, s_close, s_flags, s_recv, s_send, s_ioctl };
const struct diag_l0 *l0dev_list[] = { &g_l0, NULL };
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) { *pp = calloc(n, s); return *pp ? 0 : DIAG_ERR_NOMEM; }

static void setup(void) {
	memset(&G, 0, sizeof(G));
	g_gap = 0;
	g_l0._new = s_new; g_l0._del = s_del; g_l0._open = s_open; g_l0._close = s_close; g_l0._getflags = s_flags; g_l0._recv = s_recv; g_l0._send = s_send; g_l0._ioctl = s_ioctl;
	g_dev.dl0 = &g_l0;
	g_dev.opened = true;
	g_flags = vp_uint();
	VP_BYTES(g_data, sizeof(g_data));
	g_k = FORALL_WITNESS();
	diag_l1_debug_ = vp_int();
}
static size_t g_len;
#define CL_send(REQ, ENS, ASG) \
	REQ(d == &g_dev && data == g_data && len == g_len) \
	ENS("result is 0 or a negative error", RESULT <= 0) \
	ASG(G, g_gap)
VP_CONTRACT(int, k_send, (struct diag_l0_device *d, const void *data, size_t len, unsigned p4), (d, data, len, p4), CL_send, diag_l1_send(d, data, len, p4))
void h_send(void) {
	setup();
	size_t len = vp_size();
#ifdef LEN
	len = LEN;
#endif
	REQUIRES(len >= 1 && len <= MAXLEN);
	g_p4 = vp_u16();
	bool whole = (g_p4 == 0 && !(g_flags & DIAG_L1_HALFDUPLEX)) || (g_flags & (DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT)) || (g_p4 == 0 && (g_flags & DIAG_L1_BLOCKDUPLEX));
	g_bytewise = !whole;
#if defined(BYTEWISE)
	REQUIRES(g_bytewise);
#elif !defined(LEN)
	REQUIRES(!g_bytewise);
#endif
	g_len = len;
	int rv = k_send(&g_dev, g_data, len, g_p4);
	bool dup = whole ? (g_flags & DIAG_L1_BLOCKDUPLEX) != 0 : (g_flags & DIAG_L1_HALFDUPLEX) != 0;
	VP_COVER("success with echo", rv == 0 && dup);
	VP_COVER("bad echo", rv != 0 && dup && !G.failed);
	ENSURES("result is 0 or a negative error", rv <= 0);
	ENSURES("0 only if the whole message was accepted by L0", IMPLIES(rv == 0, G.sent == len));
	ENSURES("a write error is reported", IMPLIES(G.failed, rv < 0));
	if (dup) {
		ENSURES("0 only if a complete echo was read", IMPLIES(rv == 0, G.echoed == len && !G.echo_short));
		ENSURES("0 only if the echo equals what was sent", IMPLIES(rv == 0, !G.echo_bad));
		if (whole && G.have_wit && g_k < len) { ENSURES("0 only if every echo byte equals what was sent", IMPLIES(rv == 0, G.wit == g_data[g_k])); }
	} else {
		ENSURES("without half duplex nothing is read", G.nrecv == 0);
	}
#ifdef LEN
	ENSURES("a message accepted and correctly echoed is reported as sent", IMPLIES(!G.failed && G.sent == len && !G.echo_bad && !G.echo_short, rv == 0));
	ENSURES("a wrong echo is a bus error", IMPLIES(dup && G.echo_bad && !G.echo_short, rv == DIAG_ERR_BUSERROR));
#endif
}
void h_toolong(void) {
	setup();
	size_t len = vp_size();
	REQUIRES(len > MAXRBUF);
	ENSURES("messages larger than any frame are refused before anything is sent", diag_l1_send(&g_dev, g_data, len, vp_uint()) == DIAG_ERR_BADLEN && G.nsend == 0);
}
static uint8_t g_rx[64]; static int g_l0rv; static size_t g_want; static unsigned g_tmo; static uint8_t g_first;
static int s_recv2(struct diag_l0_device *d, void *data, size_t len, unsigned timeout) {
	VP_CHECK("L1 recv passes its buffer, length and timeout on", data == g_rx && len == g_want && timeout == g_tmo && d == &g_dev);
	if (g_l0rv > 0) { g_rx[0] = g_first; }
	G.nrecv++;
	return g_l0rv;
}
void h_recv(void) {
	setup();
	g_l0._recv = s_recv2;
	g_want = vp_size(); g_tmo = vp_uint(); g_l0rv = vp_int(); g_first = vp_u8();
	REQUIRES(g_want <= sizeof(g_rx) && g_l0rv <= (int)g_want);
	int rv = diag_l1_recv(&g_dev, g_rx, g_want, g_tmo);
	VP_COVER("data", rv > 0);
	if (g_want == 0) { ENSURES("empty read refused", rv == DIAG_ERR_BADLEN && G.nrecv == 0); }
	else {
		ENSURES("one L0 read", G.nrecv == 1);
		ENSURES("no data is a timeout, never 0", IMPLIES(g_l0rv == 0, rv == DIAG_ERR_TIMEOUT));
		ENSURES("count or error is passed up unchanged", IMPLIES(g_l0rv != 0, rv == g_l0rv));
		ENSURES("data untouched", IMPLIES(g_l0rv > 0, g_rx[0] == g_first));
	}
}
void h_open(void) {
	setup();
	int p = vp_int();
	g_l0.l1proto_mask = vp_int();
	G.rv = vp_okerr();
	int want = G.rv;
	int rv = diag_l1_open(&g_dev, p);
	VP_COVER("opened", rv == 0);
	if (!(p & g_l0.l1proto_mask)) { ENSURES("unsupported protocol refused without touching the device", rv == DIAG_ERR_PROTO_NOTSUPP && G.opens == 0); }
	else { ENSURES("supported protocol: the driver's own result", rv == want && G.opens == 1); }
	ENSURES("type and flags are the driver's", diag_l1_gettype(&g_dev) == g_l0.l1proto_mask && diag_l1_getflags(&g_dev) == g_flags);
	G.ioctl_rv = vp_int();
	ENSURES("ioctls are forwarded", diag_l1_ioctl(&g_dev, vp_uint(), g_rx) == G.ioctl_rv && G.ioctls == 1);
	diag_l1_close(&g_dev);
	ENSURES("close reaches the driver once", G.closes == 1);
	diag_l1_close(NULL);
	ENSURES("close(NULL) is harmless", G.closes == 1);
}
