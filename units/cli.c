/* C22: command lines. Real code: libcli.c, on scripted input files */
#define _GNU_SOURCE
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdbool.h>
#include <stdint.h>
#include <ctype.h>
#include <strings.h>
#undef malloc
#undef free
#undef strtok
#undef strcspn
#undef strcasecmp
#undef fgets
#undef feof
#undef clearerr
#undef fopen
#undef fclose
#undef stdin
#undef fflush
#include "fmt.h"
#include "txt.h"
#ifndef LINES
#define LINES
#endif
#ifndef F1
#define F1
#endif
#ifndef F2
#define F2
#endif
#ifndef WANT
#define WANT ""
#endif
#ifndef INIT
#define INIT NULL
#endif
/* what happened, in order */
static char T[1000]; static unsigned t_n;
static void tc(char c) { VP_CHECK("unit bound: trace", t_n < 999); T[t_n++] = c; T[t_n] = 0; }
static void ts(const char *s) { for (unsigned i = 0; s[i]; i++) { tc(s[i]); } }
static int t_printf(const char *f, ...) {
	char b[200]; va_list ap; va_start(ap, f);
	(void)vp_vfmt(b, sizeof(b), f, ap);
	va_end(ap);
	ts(b);
	return 0;
}
/* input buffers; the h_fail-th is refused */
static char i_a[1400], i_b[1400], i_c[1400], i_d[1400]; static bool i_l[4]; static unsigned h_n, h_fail;
static char *i_m(unsigned i) { return i == 0 ? i_a : i == 1 ? i_b : i == 2 ? i_c : i_d; }
static void *c_malloc(size_t n) {
	if (++h_n == h_fail) { return NULL; }
	VP_CHECK("unit bound: an input line", n <= 1400);
	for (unsigned i = 0; i < 4; i++) { if (!i_l[i]) { i_l[i] = true; return i_m(i); } }
	VP_CHECK("unit bound: lines", false); return NULL;
}
static void c_free(void *p) {
	for (unsigned i = 0; i < 4; i++) { if (p == (void *)i_m(i)) { VP_CHECK("free.pre: once", i_l[i]); i_l[i] = false; i_m(i)[0] = 'x'; return; } }
	VP_CHECK("free.pre: an input line", p == NULL);
}
/* files: NULL-terminated lists of lines; "!" is a read error */
static FILE f_in, f_1, f_2; static const char *const s_in[] = { LINES NULL }, *const s_1[] = { F1 NULL }, *const s_2[] = { F2 NULL };
static unsigned p_in, p_1, p_2; static bool o_1, o_2;
static unsigned *fpos_(FILE *f) { VP_CHECK("an open file", f == &f_in || (f == &f_1 && o_1) || (f == &f_2 && o_2)); return f == &f_in ? &p_in : f == &f_1 ? &p_1 : &p_2; }
static const char *fline(FILE *f) { return f == &f_in ? s_in[p_in] : f == &f_1 ? s_1[p_1] : s_2[p_2]; }
static char *c_fgets(char *b, int n, FILE *f) {
	unsigned *p = fpos_(f); const char *l = fline(f);
	VP_CHECK("fgets.pre: the buffer has that many bytes", n > 0 && VP_W_OK(b, (size_t)n));
	if (l == NULL) { return NULL; }
	(*p)++;
	if (l[0] == '!') { return NULL; }
	unsigned i = 0;
	for (; l[i]; i++) { b[i] = l[i]; }
	b[i] = 0;
	return b;
}
static int c_feof(FILE *f) { (void)fpos_(f); return fline(f) == NULL; }
static void c_clearerr(FILE *f) { (void)fpos_(f); }
static FILE *c_fopen(const char *n, const char *m) {
	VP_CHECK("opened for reading", m[0] == 'r');
	ts("{");
	if (tx_eq(n, "f1", 3)) { VP_CHECK("unit bound: opened once", !o_1); o_1 = true; p_1 = 0; return &f_1; }
	if (tx_eq(n, "f2", 3)) { VP_CHECK("unit bound: opened once", !o_2); o_2 = true; p_2 = 0; return &f_2; }
	return NULL;
}
static int c_fclose(FILE *f) { (void)fpos_(f); VP_CHECK("fclose.pre: opened here", f != &f_in); if (f == &f_1) { o_1 = false; } else { o_2 = false; } ts("}"); return 0; }
/* C library */
static char *k_tok;
static bool k_in(char c, const char *d) { for (unsigned i = 0; d[i]; i++) { if (d[i] == c) { return true; } } return false; }
static char *c_strtok(char *s, const char *d) {
	if (s) { k_tok = s; }
	VP_CHECK("strtok.pre: a text", k_tok != NULL);
	while (*k_tok && k_in(*k_tok, d)) { k_tok++; }
	if (*k_tok == 0) { return NULL; }
	char *r = k_tok;
	while (*k_tok && !k_in(*k_tok, d)) { k_tok++; }
	if (*k_tok) { *k_tok++ = 0; }
	return r;
}
static size_t c_strcspn(const char *s, const char *d) { size_t i = 0; while (s[i] && !k_in(s[i], d)) { i++; } return i; }
static size_t c_strspn(const char *s, const char *d) { size_t i = 0; while (s[i] && k_in(s[i], d)) { i++; } return i; }
static int lo(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int c_strcasecmp(const char *a, const char *b) { unsigned i = 0; while (a[i] && lo(a[i]) == lo(b[i])) { i++; } return lo(a[i]) - lo(b[i]); }
#ifdef RL
#define HAVE_LIBREADLINE
#include <readline/readline.h>
#include <readline/history.h>
static bool k_in(char c, const char *d);
/* readline: shows the prompt, gives the next line without its end, or NULL; the caller releases it */
static char *c_readline(const char *prompt) {
	ts(prompt);
	while (s_in[p_in] && s_in[p_in][0] == '!') { p_in++; }
	if (s_in[p_in] == NULL) { return NULL; }
	const char *l = s_in[p_in++];
	char *b = c_malloc(1400); unsigned i = 0;
	for (; l[i] && l[i] != '\n' && l[i] != '\r'; i++) { b[i] = l[i]; }
	b[i] = 0;
	return b;
}
static void c_add_history(const char *l) { VP_CHECK("add_history.pre: a line that is not empty", l && *l); }
static char **c_matches(const char *text, rl_compentry_func_t *gen);
#define readline(p) c_readline(p)
#define add_history(l) c_add_history(l)
static rl_completion_func_t *m_fun; static int m_over; static char m_line[64]; static char *m_list[1];
#define rl_attempted_completion_function m_fun
#define rl_attempted_completion_over m_over
#define rl_line_buffer m_line
#define rl_completion_matches(t, g) c_matches(t, g)
#endif
#define malloc(n) c_malloc(n)
#define free(p) c_free(p)
#define strtok(s, d) c_strtok(s, d)
#define strcspn(s, d) c_strcspn(s, d)
#undef strspn
#define strspn(s, d) c_strspn(s, d)
#define strcasecmp(a, b) c_strcasecmp(a, b)
#define fgets(b, n, f) c_fgets(b, n, f)
#define feof(f) c_feof(f)
#define clearerr(f) c_clearerr(f)
#define fopen(n, m) c_fopen(n, m)
#define fclose(f) c_fclose(f)
#define fflush(f) ((void)0)
#define stdin (&f_in)
#undef printf
#undef fprintf
#define printf(...) t_printf(__VA_ARGS__)
#define fprintf(f, ...) ((void)0)
#include "libcli.c"
#undef printf
/* commands */
static void called(const char *n, int argc, char **argv) {
	ts(n); tc('(');
	for (int i = 1; i < argc; i++) { if (i > 1) { tc(','); } ts(argv[i]); }
	tc(')');
}
static enum cli_retval r_ok(int c, char **v) { called(v[0], c, v); return CMD_OK; }
static enum cli_retval r_fail(int c, char **v) { called("fail", c, v); return CMD_FAILED; }
static enum cli_retval r_use(int c, char **v) { called("use", c, v); return CMD_USAGE; }
static enum cli_retval r_cust(int c, char **v) { ts("*"); called(v[0], c, v); return CMD_OK; }
static enum cli_retval r_help(int c, char **v);
static const struct cmd_tbl_entry sub2[] = { { "ok", "u", "h", r_ok, 0, NULL }, CLI_TBL_BUILTINS, CLI_TBL_END };
static const struct cmd_tbl_entry sub1[] = { { "ok2", "u", "h", r_ok, 0, NULL }, { "cust", "u", "h", r_cust, CLI_CMD_CUSTOM | CLI_CMD_HIDDEN, NULL }, { "deep", "u", "h", NULL, 0, sub2 }, { "ok3", "u", "h", r_ok, 0, NULL }, CLI_TBL_BUILTINS, CLI_TBL_END };
static const struct cmd_tbl_entry root[] = { { "ok", "OU", "OH", r_ok, 0, NULL }, { "use", "UU", "UH", r_use, 0, NULL }, { "fail", "FU", "FH", r_fail, CLI_CMD_HIDDEN, NULL }, { "sub", "SU", "SH", NULL, 0, sub1 },
	{ "source", "u", "h", cmd_source, CLI_CMD_FILEARG, NULL }, { "help", "HU", "HH", r_help, CLI_CMD_HIDDEN, NULL }, { "dp", "DU", "DH", NULL, CLI_CMD_HIDDEN, sub2 }, CLI_TBL_BUILTINS, CLI_TBL_END };
static enum cli_retval r_help(int c, char **v) { return cli_help_basic(c, v, root); }
static void on_log(int c, char **v) { tc('<'); for (int i = 0; i < c; i++) { if (i) { tc(' '); } ts(v[i]); } tc('>'); }
static void on_exit_(void) { ts("[end]"); }
#ifndef OOM
#define OOM 0
#endif
#ifndef LOGCB
#define LOGCB 1
#endif
void h_cli(void) {
	t_n = 0; T[0] = 0; h_n = 0; h_fail = OOM; p_in = p_1 = p_2 = 0; o_1 = o_2 = false; k_tok = NULL;
	for (unsigned i = 0; i < 4; i++) { i_l[i] = false; }
	struct cli_callbacks cb = { LOGCB ? on_log : NULL, LOGCB ? on_exit_ : NULL };
	cli_set_callbacks(&cb);
	cli_enter("P", INIT, root);
	ENSURES("the commands named are run with the words given, in order, at the right level", tx_eq(T, WANT, sizeof(T)));
	ENSURES("every line is released and every file closed", !i_l[0] && !i_l[1] && !i_l[2] && !i_l[3] && !o_1 && !o_2);
#ifdef DUMP
	VP_CHECK(DUMP, false);
#endif
}
#ifndef FILES
#define FILES 0
#endif
#ifdef RL
static char **c_matches(const char *text, rl_compentry_func_t *gen) {
	unsigned n = 0;
	for (char *r; (r = gen(text, (int)n)) != NULL; n++) { ts(r); tc(' '); c_free(r); }
	return n ? m_list : NULL;
}
#ifndef LINE
#define LINE ""
#define START 0
#endif
void h_complete(void) {
	t_n = 0; T[0] = 0; h_n = 0; h_fail = 0; m_over = 0;
	for (unsigned i = 0; i < 4; i++) { i_l[i] = false; }
	for (unsigned i = 0; i < sizeof(LINE); i++) { m_line[i] = LINE[i]; }
	readline_init(root);
	char **r = m_fun(m_line + START, START, (int)sizeof(LINE) - 1);
	ENSURES("offered: the visible commands of the menu reached that begin with the word", tx_eq(T, WANT, sizeof(T)));
	ENSURES("the choice, or none", r == (t_n ? m_list : NULL));
	ENSURES("file names are offered exactly for commands that take one", (t_n || !m_over) == (WANT[0] || FILES));
	ENSURES("released", !i_l[0] && !i_l[1]);
#ifdef DUMP
	VP_CHECK(DUMP, false);
#endif
}
#endif
#ifndef FILES
#define FILES 0
#endif
/* one word against a table */
#ifndef WL
#define WL 4
#endif
void h_find(void) {
	char w[WL + 1];
	for (unsigned i = 0; i < WL; i++) { w[i] = (char)vp_u8(); }
	w[WL] = 0;
	static const struct cmd_tbl_entry t[] = { { "se", "u", "h", r_ok, 0, NULL }, { "Set", "u", "h", r_ok, 0, NULL }, { "?", "u", "h", r_ok, 0, NULL },
#ifdef CUST
		{ "cust", "u", "h", r_cust, CLI_CMD_CUSTOM, NULL },
#endif
		{ "test", "u", "h", NULL, 0, sub1 }, { "up", "u", "h", cmd_up, CLI_CMD_HIDDEN, NULL }, CLI_TBL_END };
	const struct cmd_tbl_entry *e = find_cmd(t, w), *x = NULL;
	for (unsigned i = 0; t[i].command; i++) {
		bool eq = true; unsigned k = 0;
		for (; t[i].command[k]; k++) { if (lo(w[k]) != lo(t[i].command[k])) { eq = false; break; } }
		if (eq && w[k] == 0) { x = &t[i]; break; }
	}
	if (x == NULL) { for (unsigned i = 0; t[i].command; i++) { if (t[i].flags & CLI_CMD_CUSTOM) { x = &t[i]; } } }
	ENSURES("the entry with that name, in any case of letters; else the table's handler for other words, or none", e == x);
	VP_COVER("found", x == &t[1]); VP_COVER("none", x == NULL || x->flags & CLI_CMD_CUSTOM);
}
