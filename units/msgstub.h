/*
 * Contract of the message objects (proved for the real code in C01), in
 * executable form for the callers:
 *   diag_allocmsg(n)       NULL (too large / no memory) or a message with n
 *                          zeroed, owned data bytes and no successor
 *   diag_dupsinglemsg(m)   NULL or an owned copy of m alone
 *   diag_dupmsg(m)         NULL or an owned copy of the chain
 *   diag_freemsg(m)        requires every message of the chain to be live;
 *                          afterwards none of them is
 * Data bytes sit at the very end of their storage, so that a read or write past
 * them is out of bounds; a freed message has no data.
 */
#ifndef MSGSTUB_H
#define MSGSTUB_H
#ifndef NSLOTS
#define NSLOTS 4
#endif
#ifndef SLOTCAP
#define SLOTCAP 16
#endif
static struct diag_msg ms_s0, ms_s1, ms_s2, ms_s3, ms_s4, ms_s5, ms_s6, ms_s7;
#ifdef MS_BIG
static struct diag_msg ms_s8, ms_s9, ms_s10, ms_s11, ms_s12, ms_s13, ms_s14, ms_s15;
#endif
static struct diag_msg *ms_slotp(unsigned i) {
	switch (i) { case 0: return &ms_s0; case 1: return &ms_s1; case 2: return &ms_s2; case 3: return &ms_s3;
	case 4: return &ms_s4; case 5: return &ms_s5; case 6: return &ms_s6;
#ifdef MS_BIG
	 case 8: return &ms_s8; case 9: return &ms_s9; case 10: return &ms_s10; case 11: return &ms_s11; case 12: return &ms_s12; case 13: return &ms_s13; case 14: return &ms_s14; case 15: return &ms_s15;
#endif
	default: return &ms_s7; }
}
static bool ms_live[NSLOTS];
static unsigned ms_n;                   /* slots handed out */
static int ms_nlive;
static unsigned ms_failat;              /* if not 0: number of the allocation that fails */
static bool ms_failed;                  /* an allocation failed */
#ifndef MS_CHAINMAX
#define MS_CHAINMAX NSLOTS
#endif

#ifndef VP_REPLAY
static uint8_t ms_b0[SLOTCAP], ms_b1[SLOTCAP], ms_b2[SLOTCAP], ms_b3[SLOTCAP], ms_b4[SLOTCAP], ms_b5[SLOTCAP], ms_b6[SLOTCAP], ms_b7[SLOTCAP];
#ifdef MS_BIG
static uint8_t ms_b8[SLOTCAP], ms_b9[SLOTCAP], ms_b10[SLOTCAP], ms_b11[SLOTCAP], ms_b12[SLOTCAP], ms_b13[SLOTCAP], ms_b14[SLOTCAP], ms_b15[SLOTCAP];
#endif
static uint8_t *ms_data(unsigned i, size_t n) {
	uint8_t *b;
	if (n == 0) { return NULL; }
	switch (i) { case 0: b = ms_b0; break; case 1: b = ms_b1; break; case 2: b = ms_b2; break; case 3: b = ms_b3; break;
	case 4: b = ms_b4; break; case 5: b = ms_b5; break; case 6: b = ms_b6; break;
#ifdef MS_BIG
	 case 8: b = ms_b8; break; case 9: b = ms_b9; break; case 10: b = ms_b10; break; case 11: b = ms_b11; break; case 12: b = ms_b12; break; case 13: b = ms_b13; break; case 14: b = ms_b14; break; case 15: b = ms_b15; break;
#endif
	default: b = ms_b7; break; }
#ifdef MS_STARTALIGN
	return b;
#else
	return b + (SLOTCAP - n);
#endif
}
#else
static uint8_t *ms_data(unsigned i, size_t n) { (void)i; return n ? (uint8_t *)(malloc)(n) : NULL; }
#endif
static int ms_index(const struct diag_msg *m) {
	for (unsigned i = 0; i < NSLOTS; i++) { if (m == ms_slotp(i)) { return (int)i; } }
	return -1;
}
static struct diag_msg *ms_new(size_t n) {
	if ((vp_oom && vp_bool()) || ms_n + 1 == ms_failat) { ms_failed = true; return NULL; }
#ifdef VP_REPLAY
	if (ms_n >= NSLOTS || n > SLOTCAP) { vp_invalid(__FILE__, __LINE__); }
#else
	VP_CHECK("unit bound: enough message slots", ms_n < NSLOTS && n <= SLOTCAP);
	VP_ASSUME(ms_n < NSLOTS && n <= SLOTCAP);
#endif
	unsigned i = ms_n++;
	struct diag_msg *m = ms_slotp(i);
	ms_live[i] = true; ms_nlive++;
	m->fmt = 0; m->type = 0; m->dest = 0; m->src = 0; m->len = (unsigned)n; m->next = NULL; m->rxtime = 0;
	m->iflags = DIAG_MSG_IFLAG_MALLOC;
	m->idata = m->data = ms_data(i, n);
	return m;
}
struct diag_msg *diag_allocmsg(size_t n) {
	if (n > DIAG_MAX_MSGLEN) { return NULL; }
	struct diag_msg *m = ms_new(n);
	if (m != NULL) {
		for (size_t k = 0; k < SLOTCAP; k++) { if (k < n) { m->data[k] = 0; } }
	}
	return m;
}
struct diag_msg *diag_dupsinglemsg(struct diag_msg *o) {
	int oi = ms_index(o);
	VP_CHECK("diag_dupsinglemsg.pre: a live message", oi < 0 || ms_live[oi]);
	VP_CHECK("diag_dupsinglemsg.pre: data readable", o->len == 0 || VP_R_OK(o->data, o->len));
	struct diag_msg *m = ms_new(o->len);
	if (m != NULL) {
		m->fmt = o->fmt; m->type = o->type; m->dest = o->dest; m->src = o->src; m->rxtime = o->rxtime;
		for (size_t k = 0; k < SLOTCAP; k++) { if (k < o->len) { m->data[k] = o->data[k]; } }
	}
	return m;
}
struct diag_msg *diag_dupmsg(struct diag_msg *o) {
	struct diag_msg *h = NULL, *t = NULL;
	for (; o != NULL; o = o->next) {
		struct diag_msg *c = diag_dupsinglemsg(o);
		if (c == NULL) { diag_freemsg(h); return NULL; }
		if (h == NULL) { h = c; } else { t->next = c; }
		t = c;
	}
	return h;
}
void diag_freemsg(struct diag_msg *m) {
	for (int c = 0; c < MS_CHAINMAX; c++) {
		if (m == NULL) { return; }
		int i = ms_index(m);
		VP_CHECK("diag_freemsg.pre: an allocated message", i >= 0);
		VP_ASSUME(i >= 0);
		VP_CHECK("diag_freemsg.pre: not freed before", ms_live[i]);
		struct diag_msg *n = m->next;
		ms_live[i] = false; ms_nlive--;
#ifdef VP_REPLAY
		(free)(m->idata);
#endif
		m->idata = m->data = NULL; m->len = 0x7fffffff;
		m = n;
	}
	VP_CHECK("diag_freemsg.pre: the chain is finite", m == NULL);
}
#endif
