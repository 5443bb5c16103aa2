/* C01: message objects. Real code: diag_general.c */
#include "general.h"

static struct diag_msg *arb_msg(uint8_t *buf, size_t cap, size_t off) {
	/* an arbitrary message header over BUF; data may have been advanced by OFF */
	struct diag_msg *m = malloc(sizeof(*m));
	REQUIRES(m != NULL);
	m->fmt = vp_u8(); m->type = vp_u8(); m->dest = vp_u8(); m->src = vp_u8();
	m->rxtime = vp_ulong();
	m->len = vp_uint();
	REQUIRES(m->len <= cap - off);
	m->idata = buf;
	m->data = buf + off;
	m->iflags = DIAG_MSG_IFLAG_MALLOC;
	m->next = NULL;
	return m;
}

/* ---- diag_allocmsg ---- */
static size_t g_n, g_k;
static long g_live0, g_fail0;
static bool ok_newmsg(struct diag_msg *m, size_t n) {
	return m->len == n && m->next == NULL && (m->iflags & DIAG_MSG_IFLAG_MALLOC) && m->fmt == 0
		&& m->data == m->idata && IFF(n > 0, m->data != NULL)
		&& IMPLIES(n > 0, VP_W_OK(m->data, n)) && IMPLIES(g_k < n, m->data[g_k] == 0);
}
#define CL_alloc(REQ, ENS, ASG) \
	ENS("oversized request refused", IMPLIES(n > DIAG_MAX_MSGLEN, RESULT == NULL)) \
	ENS("succeeds whenever memory is available", IMPLIES(n <= DIAG_MAX_MSGLEN && vp_nofail == g_fail0, RESULT != NULL)) \
	ENS("new message: n zeroed owned data bytes, no successor", IMPLIES(RESULT != NULL, ok_newmsg(RESULT, n))) \
	ENS("nothing leaks on failure; success owns descriptor and buffer", vp_live == g_live0 + (RESULT == NULL ? 0 : n > 0 ? 2 : 1)) \
	ASG(vp_live, vp_nofail, latchedCode)
VP_CONTRACT(struct diag_msg *, k_alloc, (size_t n), (n), CL_alloc, diag_allocmsg(n))
void h_alloc(void) {
	vp_oom = true;
	vp_live = 0; vp_nofail = 0;
	g_n = vp_size(); g_k = FORALL_WITNESS();
	g_live0 = vp_live; g_fail0 = vp_nofail;
	struct diag_msg *m = k_alloc(g_n);
	VP_COVER("alloc ok", m != NULL && m->len > 100);
	VP_COVER("alloc fail", m == NULL && g_n < 10);
	diag_freemsg(m);
	ENSURES("freeing returns everything", vp_live == 0);
}

/* ---- diag_dupsinglemsg ---- */
static struct diag_msg *g_src; static uint8_t g_sb; static struct diag_msg g_src0;
static bool same_hdr(const struct diag_msg *a, const struct diag_msg *b) {
	return a->fmt == b->fmt && a->type == b->type && a->dest == b->dest && a->src == b->src && a->len == b->len && a->rxtime == b->rxtime;
}
static bool same_src(void) {
	return same_hdr(g_src, &g_src0) && g_src->data == g_src0.data && g_src->idata == g_src0.idata && g_src->next == g_src0.next && g_src->iflags == g_src0.iflags;
}
#define CL_dup1(REQ, ENS, ASG) \
	REQ(m == g_src) \
	ENS("succeeds whenever memory is available", IMPLIES(vp_nofail == g_fail0, RESULT != NULL)) \
	ENS("copy has the same header fields and length", IMPLIES(RESULT != NULL, same_hdr(RESULT, m))) \
	ENS("copy has the same payload bytes", IMPLIES(RESULT != NULL && g_k < m->len, RESULT->data[g_k] == g_sb)) \
	ENS("copy owns its own storage", IMPLIES(RESULT != NULL, RESULT != m && (RESULT->len == 0 || !__CPROVER_same_object(RESULT->data, m->data)) && RESULT->data == RESULT->idata && (RESULT->iflags & DIAG_MSG_IFLAG_MALLOC))) \
	ENS("the copied message is a single message", IMPLIES(RESULT != NULL, RESULT->next == NULL)) \
	ENS("the original is unchanged", same_src() && IMPLIES(g_k < m->len, m->data[g_k] == g_sb)) \
	ENS("nothing leaks on failure", vp_live == g_live0 + (RESULT == NULL ? 0 : m->len > 0 ? 2 : 1)) \
	ASG(vp_live, vp_nofail, latchedCode)
#ifdef VP_REPLAY
#define __CPROVER_same_object(a, b) ((a) == (b))
#endif
VP_CONTRACT(struct diag_msg *, k_dup1, (struct diag_msg *m), (m), CL_dup1, diag_dupsinglemsg(m))
static uint8_t g_buf[DIAG_MAX_MSGLEN];
void h_dup1(void) {
	VP_BYTES(g_buf, sizeof(g_buf));
	size_t off = vp_size();
	REQUIRES(off <= sizeof(g_buf));
	vp_oom = false;
	g_src = arb_msg(g_buf, sizeof(g_buf), off);
	g_src->next = vp_bool() ? g_src : NULL;      /* it may be part of a chain */
	g_src0 = *g_src;
	g_k = FORALL_WITNESS();
	if (g_k < g_src->len) { g_sb = g_src->data[g_k]; }
	vp_oom = true;
	g_live0 = vp_live; g_fail0 = vp_nofail;
	struct diag_msg *m = k_dup1(g_src);
	VP_COVER("dup of long message", m != NULL && m->len > 300);
}

/* ---- chains ---- */
#ifndef CHAIN
#define CHAIN 3
#endif
#ifndef MLEN
#define MLEN 4
#endif
static struct diag_msg *mk_chain(unsigned n) {
	/* n messages, each owning its buffer, data possibly advanced past a header */
	struct diag_msg *head = NULL;
	for (unsigned i = 0; i < n; i++) {
		bool has = vp_bool();
		uint8_t *b = NULL;
		size_t off = 0;
		if (has) {
			b = malloc(MLEN);
			VP_BYTES(b, MLEN);
			off = vp_u8();
			REQUIRES(off <= MLEN);
		}
		struct diag_msg *m = arb_msg(b, has ? MLEN : 0, off);
		m->next = head;
		head = m;
	}
	return head;
}
void h_freechain(void) {
	vp_oom = false;
	unsigned n = vp_uint();
	REQUIRES(n <= CHAIN);
	for (unsigned c = 0; c <= CHAIN; c++) {
		if (c == n) {
			struct diag_msg *h = mk_chain(c);
			VP_COVER("full chain", c == CHAIN);
			diag_freemsg(h);
			ENSURES("every descriptor and every owned buffer is released, exactly once", vp_live == 0);
		}
	}
}
void h_dupchain(void) {
	unsigned n = vp_uint();
	REQUIRES(n >= 1 && n <= CHAIN);
	vp_oom = false;
	for (unsigned c = 1; c <= CHAIN; c++) {
		if (c == n) {
			struct diag_msg *h = mk_chain(c);
			long live0 = vp_live;
			g_k = FORALL_WITNESS();
			vp_oom = true;
			vp_nofail = 0;
			struct diag_msg *d = diag_dupmsg(h);
			ENSURES("duplicating succeeds whenever memory is available", IMPLIES(vp_nofail == 0, d != NULL));
			if (d == NULL) {
				ENSURES("failed duplication leaks nothing", vp_live == live0);
				diag_freemsg(h);
				ENSURES("the original chain is still intact", vp_live == 0);
				return;
			}
			struct diag_msg *a = h, *b = d;
			for (unsigned i = 0; i < c; i++) {
				ENSURES("chain copy is not shorter", b != NULL);
				ENSURES("chain copy: header fields in order", same_hdr(a, b));
				ENSURES("chain copy: payload bytes", IMPLIES(g_k < a->len, b->data[g_k] == a->data[g_k]));
				a = a->next;
				b = b->next;
			}
			ENSURES("original chain keeps its length", a == NULL);
			ENSURES("chain copy is not longer", b == NULL);
			diag_freemsg(d);
			ENSURES("freeing the copy leaves exactly the original", vp_live == live0);
			diag_freemsg(h);
			ENSURES("freeing the original leaves nothing", vp_live == 0);
		}
	}
}
/* ---- diag_fl_alloc ---- */
#ifndef ESZ
#define ESZ 1
#endif
void h_flalloc(void) {
	vp_oom = true;
	uint8_t *p;
	uint8_t junk;
	p = &junk;
	size_t n = vp_size();
	bool c = vp_bool();
	size_t k = vp_size();
	bool ovf = ESZ == 0 || n == 0 || n > SIZE_MAX / (ESZ ? ESZ : 1);
	REQUIRES(ovf || n <= 10000);
	int rv = diag_fl_alloc("x", 1, (void **)&p, n, ESZ, c);
	if (ovf) {
		ENSURES("zero or overflowing size is refused", rv < 0 && p == NULL && vp_live == 0);
	} else {
		ENSURES("0 exactly when memory was obtained", IFF(rv == 0, p != NULL) && IMPLIES(vp_nofail == 0, rv == 0) && rv <= 0);
		if (rv == 0) {
			VP_COVER("allocated", n > 50);
			ENSURES("the block holds n*s bytes", VP_W_OK(p, n * ESZ));
			ENSURES("calloc-style blocks are zeroed", IMPLIES(c && k < n * ESZ, p[k] == 0));
		}
	}
}
/* ---- error latch ---- */
void h_err(void) {
	int a = vp_int(), b = vp_int();
	REQUIRES(a != 0 && b != 0);
	(void)diag_geterr();
	ENSURES("no error pending after it was fetched", diag_geterr() == 0);
	int k1 = vp_u8() & 3, k2 = vp_u8() & 3;
	int exp = 0;
	for (int i = 0; i < 2; i++) {
		int k = i ? k2 : k1, c = i ? b : a;
		if (k == 0) { ENSURES("iseterr returns its code", diag_p_iseterr("f", 3, c) == c); if (!exp) { exp = c; } }
		if (k == 1) { ENSURES("pseterr returns NULL", diag_p_pseterr("f", 3, c) == NULL); if (!exp) { exp = c; } }
		if (k == 2) { ENSURES("ifwderr returns its code", diag_p_ifwderr("f", 3, c) == c); }
		if (k == 3) { ENSURES("pfwderr returns NULL", diag_p_pfwderr("f", 3, c) == NULL); }
	}
	VP_COVER("second error after a first", k1 == 0 && k2 == 1);
	ENSURES("the first error set since the last fetch is reported", diag_geterr() == exp);
	ENSURES("fetching clears it", diag_geterr() == 0);
}
static const int codes[] = { DIAG_ERR_GENERAL, DIAG_ERR_BADFD, DIAG_ERR_NOMEM, DIAG_ERR_INIT_NOTSUPP, DIAG_ERR_PROTO_NOTSUPP, DIAG_ERR_IOCTL_NOTSUPP,
	DIAG_ERR_BADIFADAPTER, DIAG_ERR_TIMEOUT, DIAG_ERR_BUSERROR, DIAG_ERR_BADLEN, DIAG_ERR_BADDATA, DIAG_ERR_BADCSUM, DIAG_ERR_INCDATA, DIAG_ERR_WRONGKB,
	DIAG_ERR_BADRATE, DIAG_ERR_ECUSAIDNO, DIAG_ERR_RCFILE, DIAG_ERR_CMDFILE, DIAG_ERR_BADVAL, DIAG_ERR_BADCFG };
#define NCODES (sizeof(codes) / sizeof(codes[0]))
void h_errtext(void) {
	int c = vp_int();
	const char *t = diag_errlookup(c);
	bool known = false;
	ENSURES("every code has a text", t != NULL && VP_R_OK(t, 1));
	for (unsigned i = 0; i < NCODES; i++) {
		if (c == codes[i]) { known = true; }
		else { ENSURES("different codes have different texts", t != diag_errlookup(codes[i])); }
	}
	VP_COVER("known", known);
	if (known) { ENSURES("known codes have a non-empty constant text", t[0] != 0 && t == diag_errlookup(c)); }
	else {
#ifdef VP_REPLAY
		char e[40]; snprintf(e, sizeof(e), "0x%.2X", (unsigned)c);
		ENSURES("unknown codes are shown in hex", strstr(t, e) != NULL);
#endif
	}
}
