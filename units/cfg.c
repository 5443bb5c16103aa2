/* C21: configuration items. Real code: diag_cfg.c; strlist_add, strlist_free, diag_fl_alloc of diag_general.c */
#undef malloc
#undef calloc
#undef free
#undef realloc
/* heap: counted blocks; the h_fail-th allocation fails */
static unsigned h_n, h_fail, h_live;
static struct { void *p; size_t n; } h_blk[10];
/* lists of texts (only realloc makes them) */
static char *l_a[2], *l_b[2], *l_c[2], *l_d[2]; static unsigned l_len[4];
static char **l_mem(unsigned i) { return i == 0 ? l_a : i == 1 ? l_b : i == 2 ? l_c : l_d; }
static void *c_malloc(size_t n) {
	if (++h_n == h_fail) { return NULL; }
#ifdef VP_REPLAY
	void *p = malloc(n);
#else
	void *p = __CPROVER_allocate(n, 0);
#endif
	for (unsigned i = 0; i < 10; i++) { if (h_blk[i].p == NULL) { h_blk[i].p = p; h_blk[i].n = n; h_live++; return p; } }
	VP_CHECK("unit bound: blocks", false);
	return p;
}
static void *c_calloc(size_t a, size_t b) {
	char *p = c_malloc(a * b);
	if (p) { for (size_t i = 0; i < a * b; i++) { p[i] = 0; } }
	return p;
}
static void c_free(void *p) {
	if (p == NULL) { return; }
	for (unsigned i = 0; i < 4; i++) { if (p == (void *)l_mem(i)) { VP_CHECK("free.pre: a list, once", l_len[i] > 0); l_len[i] = 0; l_mem(i)[0] = l_mem(i)[1] = NULL; h_live--; return; } }
	for (unsigned i = 0; i < 10; i++) { if (h_blk[i].p == p) { h_blk[i].p = NULL; h_live--; free(p); return; } }
	VP_CHECK("free.pre: a block allocated before, once", false);
}
static void *c_realloc(void *o, size_t n) {
	if (++h_n == h_fail) { return NULL; }
	VP_CHECK("unit bound: list of texts", n == sizeof(char *) || n == 2 * sizeof(char *));
	for (unsigned i = 0; i < 4; i++) {
		if (l_len[i]) { continue; }
		l_len[i] = (unsigned)(n / sizeof(char *));
		h_live++;
		for (unsigned j = 0; j < 4; j++) { if (o && o == (void *)l_mem(j)) { VP_CHECK("realloc.pre: a list", l_len[j] > 0); for (unsigned k = 0; k < l_len[j] && k < l_len[i]; k++) { l_mem(i)[k] = l_mem(j)[k]; } } }
		c_free(o);
		return l_mem(i);
	}
	VP_CHECK("unit bound: lists", false);
	return NULL;
}
#define malloc(n) c_malloc(n)
#define calloc(n, s) c_calloc(n, s)
#define free(p) c_free(p)
#define realloc(p, n) c_realloc(p, n)
#include "general.h"
#include "diag_cfg.h"
#include "diag_tty.h"
#include "fmt.h"
#include "diag_cfg.c"
#undef snprintf
#ifndef OPS
#define OPS ""
#endif
#ifndef NT
#define NT CFGT_INT
#endif
#ifndef TXTV
#define TXTV 0
#define TXTS ""
#endif
static bool c_eq(const char *a, const char *b) { size_t i = 0; for (; b[i]; i++) { if (a[i] != b[i]) { return false; } } return a[i] == 0; }
/* ports: contract of diag_tty_getportlist (see ttyports.c): a list made by strlist_add, or an empty one */
static unsigned g_ports; static bool g_portfail;
static const char *const PORT[2] = { "/dev/ttyS0", "/dev/ttyUSB10" };
char **diag_tty_getportlist(int *n) {
	char **l = NULL; *n = 0;
	for (unsigned i = 0; i < g_ports; i++) { l = strlist_add(l, PORT[i], (int)i); if (l == NULL) { return NULL; } }
	if (g_portfail) { strlist_free(l, (int)g_ports); return NULL; }
	*n = (int)g_ports;
	return l;
}
static struct cfgi I, I0;
static struct { const char *v, *d; unsigned nopt; bool tty; } M;
static const char DEF[] = "simfile.db";
static void inv(void) {
	ENSURES("the value is the one set last, or the default", I.val.str != NULL && c_eq(I.val.str, M.v));
	ENSURES("the default value", I.dval.str != NULL && c_eq(I.dval.str, M.d) && I.dval.str != I.val.str);
	ENSURES("the options found last", I.numopts == (int)M.nopt);
	for (unsigned i = 0; i < M.nopt; i++) { ENSURES("option", c_eq(I.opt[i], PORT[i])); }
	ENSURES("all memory belongs to the item", h_live == 2 + (M.nopt ? 1 + M.nopt : 0));
	ENSURES("a string item", I.type == CFGT_STR && I.descr != NULL && I.shortname != NULL);
}
static void fails(unsigned k) { h_n = 0; h_fail = k; }
static char s_caller[32];
static void set(const char *s, bool ok) {
	unsigned i = 0;
	for (; s[i]; i++) { s_caller[i] = s[i]; }
	s_caller[i] = 0;
	int rv = diag_cfg_setstr(&I, s_caller);
	s_caller[0] = '!';
	ENSURES("set or no memory", ok ? rv == 0 : rv == DIAG_ERR_NOMEM);
	if (ok) { M.v = s; }
}
static void op(char o) {
	static const char *const alias[] = { "imfile.db", "mfile.db", "file.db" };
	int rv; char *s;
	fails(0);
	switch (o) {
	case 'N': case 'T': case 'n': case 'm': case 't': case 'u':
		I = I0; fails(o == 'n' || o == 't' ? 1 : o == 'm' || o == 'u' ? 2 : 0);
		M.tty = o == 'T' || o == 't' || o == 'u'; M.v = M.d = M.tty ? "/dev/null" : DEF; M.nopt = 0;
		rv = M.tty ? diag_cfgn_tty(&I) : diag_cfgn_str(&I, DEF, "descr", "sn");
		if (o != 'N' && o != 'T') { ENSURES("no item without memory, nothing leaked", rv == DIAG_ERR_NOMEM && h_live == 0); return; }
		ENSURES("a new item", rv == 0 && I.next == NULL);
		break;
	case '1': set("a", true); break;
	case '2': set("a longer text", true); break;
	case '3': set("", true); break;
	case 'x': fails(1); set("never", false); break;
	case 'A': if (c_eq(M.v, DEF)) { rv = diag_cfg_setstr(&I, I.val.str + 1); ENSURES("set from its own value", rv == 0); M.v = alias[0]; } break;
	case 'r': diag_cfg_reset(&I); M.v = M.d; break;
	case 'w': fails(1); diag_cfg_reset(&I); break;
	case 'R': case 'Q': case 'P': case 'F': case 'G': case 'H':
		g_ports = o == 'R' ? 0 : o == 'Q' ? 1 : 2; g_portfail = o == 'F';
		fails(o == 'G' ? 5 : 0);
		diag_cfg_refresh(&I);
		g_portfail = false;
		if (!M.tty) { break; }
		M.nopt = o == 'F' || o == 'G' ? 0 : g_ports;
		if (M.nopt) { M.d = PORT[0]; }
		break;
	case '0': case '9': case '-': case '+': case 'z':
		fails(o == 'z' ? 1 : 0);
		{ int k = o == '0' || o == 'z' ? 0 : o == '9' ? 1 : o == '-' ? -1 - (int)(vp_uint() >> 1) : (int)M.nopt + (int)(vp_uint() >> 2);
		bool ok = k >= 0 && k < (int)M.nopt;
		rv = diag_cfg_setopt(&I, k);
		ENSURES("exactly the existing options can be chosen", (rv == 0) == (ok && o != 'z') && rv <= 0);
		if (ok && o != 'z') { M.v = PORT[k]; } }
		break;
	case 'g': s = diag_cfg_getstr(&I); ENSURES("a new text of the value", s != NULL && c_eq(s, M.v) && s != I.val.str && s != I.dval.str); free(s); break;
	case 'y': fails(1); s = diag_cfg_getstr(&I); ENSURES("no memory", s == NULL); break;
	case 'W':
		ENSURES("a text is no number", diag_cfg_setint(&I, vp_int()) < 0 && diag_cfg_setu8(&I, vp_u8()) < 0 && diag_cfg_setbool(&I, vp_bool()) < 0);
		break;
	case 'C':
		diag_cfg_clear(&I);
		ENSURES("everything is released", h_live == 0 && I.val.str == NULL && I.dval.str == NULL && I.numopts == 0);
		diag_cfg_clear(&I);
		ENSURES("clearing twice is harmless", h_live == 0);
		return;
	default: VP_CHECK("known operation", false);
	}
	inv();
}
void h_cfg(void) {
	static const char ops[] = OPS;
	I = I0; h_live = 0; M.nopt = 0;
	for (unsigned i = 0; i < 10; i++) { h_blk[i].p = NULL; }
	for (unsigned i = 0; i < 4; i++) { l_len[i] = 0; }
	for (unsigned i = 0; ops[i]; i++) { op(ops[i]); }
	VP_COVER("done", true);
}
/* numbers */
void h_num(void) {
	int v = vp_int(), d = vp_int(), w = vp_int(), k = vp_int();
	const int t = NT;
	I = I0;
	int rv = t == CFGT_INT ? diag_cfgn_int(&I, v, d) : t == CFGT_U8 ? diag_cfgn_u8(&I, (uint8_t)v, (uint8_t)d) : diag_cfgn_bool(&I, v & 1, d & 1);
	ENSURES("a new number", rv == 0 && I.type == t && !I.dyn_val && !I.dyn_dval && I.numopts == 0 && I.next == NULL);
#define IS(x) (t == CFGT_INT ? I.val.i == (x) : t == CFGT_U8 ? I.val.u8 == (uint8_t)(x) : I.val.b == (((x) & 1) != 0))
	ENSURES("its value", IS(v));
	diag_cfg_refresh(&I);
	ENSURES("nothing to refresh", IS(v));
	int a = diag_cfg_setint(&I, w);
	ENSURES("integers take integers", (a == 0) == (t == CFGT_INT) && a <= 0 && IS(t == CFGT_INT ? w : v));
	a = diag_cfg_setu8(&I, (uint8_t)w);
	ENSURES("8-bit items take 8-bit values", (a == 0) == (t == CFGT_U8) && a <= 0 && IS(t == CFGT_BOOL ? v : w));
	a = diag_cfg_setbool(&I, w & 1);
	ENSURES("switches take truth values", (a == 0) == (t == CFGT_BOOL) && a <= 0 && IS(w));
	ENSURES("numbers take no text", diag_cfg_setstr(&I, "1") < 0 && IS(w) && h_live == 0);
	static char *opts[3];
	I.opt = opts; I.numopts = 3;
	a = diag_cfg_setopt(&I, k);
	ENSURES("exactly the existing options can be chosen", (a == 0) == (k >= 0 && k < 3) && a <= 0);
	ENSURES("the number of the option is the value", IS(a == 0 && t == CFGT_INT ? k : w));
	diag_cfg_reset(&I);
	ENSURES("back to the default", IS(d));
	diag_cfg_clear(&I);
	VP_COVER("opt", a == 0);
}
void h_u8txt(void) {
	uint8_t v = vp_u8(); const bool isb = NT == CFGT_BOOL;
	h_live = 0; fails(0);
	for (unsigned i = 0; i < 10; i++) { h_blk[i].p = NULL; }
	for (unsigned i = 0; i < 4; i++) { l_len[i] = 0; }
	I = I0;
	if (isb) { diag_cfgn_bool(&I, v & 1, 0); } else { diag_cfgn_u8(&I, v, 0); }
	char *s = diag_cfg_getstr(&I);
	ENSURES("a text", s != NULL);
	if (isb) { ENSURES("0 or 1", s[0] == '0' + (v & 1) && s[1] == 0); }
	else { ENSURES("two hexadecimal digits", s[0] == '0' && s[1] == 'x' && s[2] == "0123456789ABCDEF"[v >> 4] && s[3] == "0123456789ABCDEF"[v & 15] && s[4] == 0); }
	free(s);
	ENSURES("nothing left", h_live == 0);
	VP_COVER("done", true);
}
void h_inttxt(void) {
	I = I0; h_live = 0; fails(0);
	for (unsigned i = 0; i < 10; i++) { h_blk[i].p = NULL; }
	for (unsigned i = 0; i < 4; i++) { l_len[i] = 0; }
	diag_cfgn_int(&I, TXTV, 0);
	char *s = diag_cfg_getstr(&I);
	ENSURES("a text", s != NULL);
	unsigned i = 0;
	while (s[i] == ' ') { i++; }
	ENSURES("the decimal digits of the value", c_eq(s + i, TXTS));
	free(s);
	ENSURES("nothing left", h_live == 0);
}
