/* C24: serial ports (Unix). Real code: diag_tty_unix.c, on a model of the operating system's tty calls */
#include <sys/types.h>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <signal.h>
#include <sys/select.h>
#define STUBS_NO_MS
#include "stubs_l1.h"
#include "diag_tty_unix.h"
#undef malloc
#undef calloc
#undef free
#ifndef EV
#define EV ""
#endif
#ifndef CNT
#define CNT 4
#endif
#ifndef FAILAT
#define FAILAT 0
#endif
#ifndef SPEED
#define SPEED 10400
#endif
#ifndef TIOCS
#define TIOCS 1
#endif
static bool b_eq(const void *a, const void *b, size_t n) { for (size_t i = 0; i < n; i++) { if (((const uint8_t *)a)[i] != ((const uint8_t *)b)[i]) { return false; } } return true; }
/* heap */
static struct unix_tty_int o_uti, o_uti0; static char o_name[24]; static bool l_uti, l_name; static unsigned o_n, o_fail;
int diag_fl_alloc(const char *f, const int l, void **pp, size_t n, size_t s, bool c) {
	*pp = NULL;
	if (++o_n == o_fail) { return DIAG_ERR_NOMEM; }
	if (c) { VP_CHECK("the port's data", n * s == sizeof(o_uti) && !l_uti); o_uti = o_uti0; l_uti = true; *pp = &o_uti; }
	else { VP_CHECK("the port's name", n * s <= sizeof(o_name) && !l_name); l_name = true; *pp = o_name; }
	return 0;
}
static void t_free(void *p) {
	if (p == NULL) { return; }
	if (p == (void *)&o_uti) { VP_CHECK("free.pre: allocated", l_uti); l_uti = false; o_uti = o_uti0; }
	else { VP_CHECK("free.pre: allocated", p == (void *)o_name && l_name); l_name = false; o_name[0] = 0; }
}
#define free(p) t_free(p)
/* lists: contract of strlist_add / strlist_free (C21) */
static char g_ports[4][24]; static unsigned g_nports; static bool g_nomem; static char *g_list[4];
char **strlist_add(char **list, const char *news, int elems) {
	VP_CHECK("strlist_add.pre: the list so far", elems == (int)g_nports && list == (elems ? g_list : NULL));
	if (g_nomem) { return NULL; }
	VP_CHECK("unit bound: ports", g_nports < 4);
	unsigned i = 0;
	for (; news[i] && i < 23; i++) { g_ports[g_nports][i] = news[i]; }
	g_ports[g_nports][i] = 0; g_nports++;
	return g_list;
}
static bool g_listfree;
void strlist_free(char **list, int elems) { VP_CHECK("strlist_free.pre: the whole list", elems == (int)g_nports && list == (elems ? g_list : NULL)); g_listfree = true; g_nports = 0; }
/* time: microseconds */
static unsigned long long g_us; static unsigned long long g_slept; static unsigned g_log_n; static char g_log[40];
static void lg(char c) { if (g_log_n < 39) { g_log[g_log_n++] = c; } }
unsigned long long diag_os_gethrt(void) { return g_us; }
unsigned long long diag_os_hrtus(unsigned long long h) { return h; }
unsigned long diag_os_getms(void) { return (unsigned long)(g_us / 1000); }
void diag_os_millisleep(unsigned int ms) { g_slept += ms; lg('s'); }
/* the kernel's side of the port */
#define FD 5
static struct { struct termios t; struct termios2 t2; struct serial_struct ss; int modem; bool open, brk; int flags; } K, K0;
static unsigned k_calls, k_fail; static bool k_failed;
static bool kfail(void) { if (++k_calls == k_fail) { k_failed = true; return true; } return false; }
static void t2t2(void) { K.t2.c_iflag = K.t.c_iflag; K.t2.c_oflag = K.t.c_oflag; K.t2.c_lflag = K.t.c_lflag; K.t2.c_cflag = K.t.c_cflag; for (int i = 0; i < NCCS; i++) { K.t2.c_cc[i] = K.t.c_cc[i]; } }
static void t22t(void) { K.t.c_iflag = K.t2.c_iflag; K.t.c_oflag = K.t2.c_oflag; K.t.c_lflag = K.t2.c_lflag; K.t.c_cflag = K.t2.c_cflag; for (int i = 0; i < NCCS; i++) { K.t.c_cc[i] = K.t2.c_cc[i]; } }
static int k_open(const char *name, int fl) {
	VP_CHECK("opened for reading and writing, not as the controlling terminal's line discipline", (fl & O_ACCMODE) == O_RDWR);
	if (kfail()) { errno = ENOENT; return -1; }
	VP_CHECK("opened once", !K.open); K.open = true; K.flags = fl; lg('o');
	return FD;
}
static int k_close(int fd) { VP_CHECK("an open port is closed", fd == FD && K.open); K.open = false; lg('c'); return 0; }
static int k_fcntl(int fd, int cmd, int arg) {
	VP_CHECK("an open port", fd == FD && K.open);
	if (kfail()) { errno = EIO; return -1; }
	if (cmd == F_GETFL) { return K.flags; }
	VP_CHECK("flags are set", cmd == F_SETFL); K.flags = arg; return 0;
}
static int k_ioctl(int fd, unsigned long cmd, void *a) {
	VP_CHECK("an open port", fd == FD && K.open);
	if (cmd == TIOCGSERIAL && !TIOCS) { errno = ENOTTY; return -1; }
	if (kfail()) { errno = EIO; return -1; }
	switch (cmd) {
	case TIOCGSERIAL: *(struct serial_struct *)a = K.ss; break;
	case TIOCSSERIAL: K.ss = *(struct serial_struct *)a; break;
	case TIOCMGET: *(int *)a = K.modem; break;
	case TIOCMSET: K.modem = *(int *)a; lg('m'); break;
	case TCGETS: *(struct termios *)a = K.t; break;
	case TCSETS: K.t = *(struct termios *)a; t2t2(); lg('t'); break;
	case TCGETS2: *(struct termios2 *)a = K.t2; break;
	case TCSETS2: K.t2 = *(struct termios2 *)a; t22t(); lg('2'); break;
	case TCSBRK: VP_CHECK("wait until everything is sent", a != NULL); lg('d'); break;
	case TIOCSBRK: VP_CHECK("no break yet", !K.brk); K.brk = true; lg('B'); break;
	case TIOCCBRK: K.brk = false; lg('C'); break;
	case TCFLSH: VP_CHECK("input is flushed", a == (void *)TCIFLUSH); lg('f'); break;
	default: VP_CHECK("known control call", false);
	}
	return 0;
}
/* data */
static const char *g_ev; static uint8_t w_out[16], r_in[16], w_src[16]; static unsigned w_n, r_n, r_gap; static bool g_bad, g_ran;
static char ev(void) { if (*g_ev == 0) { g_ran = true; return 'T'; } return *g_ev++; }
static unsigned long long k_t0; static bool g_sel;
static ssize_t k_write(int fd, const void *p, size_t n) {
	VP_CHECK("an open port", fd == FD && K.open);
	VP_CHECK("write.pre: something, readable", n > 0 && VP_R_OK(p, n) && n <= 16);
	char e = ev();
	if (e == 'i') { errno = EINTR; return -1; }
	if (e == 'e') { errno = EIO; return -1; }
	if (e == 'T') { g_us += 60000000; errno = EINTR; return -1; }
	size_t k = (size_t)(e - '0'); if (k > n) { k = n; }
	for (size_t i = 0; i < k; i++) { VP_CHECK("unit bound: written", w_n < 16); w_out[w_n++] = ((const uint8_t *)p)[i]; }
	g_us += 1; k_t0 = g_us; lg('w');
	return (ssize_t)k;
}
static unsigned k_tmo;
static int k_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
	VP_CHECK("waits for this port", n == FD + 1 && FD_ISSET(FD, r) && w == NULL && x == NULL && K.open);
	unsigned long long us = (unsigned long long)tv->tv_sec * 1000000 + (unsigned long long)tv->tv_usec;
	VP_CHECK("not longer than the time left", tv->tv_usec < 1000000 && us <= (unsigned long long)k_tmo * 1000 - (g_us - k_t0) && us > 0);
	char e = ev();
	if (e == 'i') { g_us += 1000; errno = EINTR; return -1; }
	if (e == 'E') { errno = EBADF; return -1; }
	if (e == 'T') { g_us += us; FD_ZERO(r); return 0; }
	g_us += 1; g_sel = true; VP_CHECK("event: ready", e == 'r');
	return 1;
}
static ssize_t k_read(int fd, void *p, size_t n) {
	VP_CHECK("an open port", fd == FD && K.open);
	VP_CHECK("read.pre: room", n > 0 && VP_W_OK(p, n));
	VP_CHECK("a read never blocks: only after data was announced", g_sel); g_sel = false;
	char e = ev();
	if (e == 'i') { errno = EINTR; return -1; }
	if (e == 'e') { errno = EIO; return -1; }
	size_t k = (size_t)(e - '0'); if (k > n) { k = n; }
	for (size_t i = 0; i < k; i++) { VP_CHECK("unit bound: read", r_n < 16); ((uint8_t *)p)[i] = r_in[r_n++]; }
	lg('r');
	return (ssize_t)k;
}
/* glibc: speeds in a settings structure */
int cfsetispeed(struct termios *t, speed_t s) { VP_CHECK("cfsetispeed.pre", VP_W_OK(t, sizeof(*t))); return vp_bool() ? 0 : -1; }
int cfsetospeed(struct termios *t, speed_t s) { VP_CHECK("cfsetospeed.pre", VP_W_OK(t, sizeof(*t))); return vp_bool() ? 0 : -1; }
/* directories */
static const char *d_ent[2][8]; static unsigned d_pos[2]; static bool d_open[2], d_miss[2]; static struct dirent d_e; static char d_a, d_b;
static DIR *k_opendir(const char *n) {
	unsigned k = n[4] == '/' && n[5] == 'u';
	VP_CHECK("known directory", n[0] == '/' && n[1] == 'd' && n[2] == 'e' && n[3] == 'v' && (k == 0 ? n[4] == '/' && n[5] == 0 : n[6] == 's' && n[7] == 'b'));
	if (d_miss[k]) { return NULL; }
	d_open[k] = true; d_pos[k] = 0;
	return (DIR *)(k ? &d_b : &d_a);
}
static struct dirent *k_readdir(DIR *d) {
	unsigned k = (char *)d == &d_b;
	VP_CHECK("readdir.pre: open", d_open[k] && (k || (char *)d == &d_a));
	const char *s = d_ent[k][d_pos[k]];
	if (s == NULL) { return NULL; }
	d_pos[k]++;
	unsigned i = 0;
	for (; s[i]; i++) { d_e.d_name[i] = s[i]; }
	d_e.d_name[i] = 0;
	return &d_e;
}
static int k_closedir(DIR *d) { unsigned k = (char *)d == &d_b; VP_CHECK("closedir.pre: open", d_open[k]); d_open[k] = false; return 0; }
static char g_last[24];
static int k_open3(const char *name, int fl) { unsigned i = 0; for (; name[i] && i < 23; i++) { g_last[i] = name[i]; } g_last[i] = 0; if (name[i - 1] == '9') { errno = EACCES; return -1; } return k_open(name, fl); }
static int k_isatty(int fd) { VP_CHECK("an open port", fd == FD && K.open); unsigned i = 0; while (g_last[i]) { i++; } return g_last[i - 1] != '8'; }
#define open(n, f) k_open3(n, f)
#define close(f) k_close(f)
#define fcntl(f, c, a) k_fcntl(f, c, a)
#define ioctl(f, c, a) k_ioctl(f, c, (void *)(a))
#define write(f, p, n) k_write(f, p, n)
#define read(f, p, n) k_read(f, p, n)
#define select(n, r, w, x, t) k_select(n, r, w, x, t)
#define opendir(n) k_opendir(n)
#define readdir(d) k_readdir(d)
#define closedir(d) k_closedir(d)
#define isatty(f) k_isatty(f)
#ifdef DIAG_DBGM
#undef DIAG_DBGM
#endif
#define DIAG_DBGM(...) do { } while (0)
#include "diag_tty_unix.c"
#undef open
#undef close
#undef read
#undef write
static void kinit(void) {
	K = K0; K.t.c_iflag = vp_uint(); K.t.c_oflag = vp_uint(); K.t.c_cflag = vp_uint(); K.t.c_lflag = vp_uint(); K.t.c_line = 0;
	K.t2.c_ispeed = vp_uint(); K.t2.c_ospeed = vp_uint(); K.modem = vp_int();
	for (int i = 0; i < NCCS; i++) { K.t.c_cc[i] = vp_u8(); }
	t2t2();
	K.ss.baud_base = vp_int(); K.ss.flags = vp_int(); K.ss.custom_divisor = vp_int();
	k_t0 = 0; k_calls = 0; k_fail = 0; k_failed = false; o_n = 0; o_fail = 0; g_us = 0; g_slept = 0; w_n = r_n = 0; g_log_n = 0; g_sel = false; g_ran = false; l_uti = l_name = false;
	for (unsigned i = 0; i < 40; i++) { g_log[i] = 0; }
	for (unsigned i = 0; i < 16; i++) { r_in[i] = vp_u8(); w_src[i] = vp_u8(); }
	g_ev = EV;
}
static bool ksame(const typeof(K) *a) {
	if (K.t2.c_iflag != a->t2.c_iflag || K.t2.c_oflag != a->t2.c_oflag || K.t2.c_cflag != a->t2.c_cflag || K.t2.c_lflag != a->t2.c_lflag || K.t2.c_ispeed != a->t2.c_ispeed || K.t2.c_ospeed != a->t2.c_ospeed || K.modem != a->modem) { return false; }
	for (int i = 0; i < NCCS; i++) { if (K.t2.c_cc[i] != a->t2.c_cc[i]) { return false; } }
	return !TIOCS || (K.ss.flags == a->ss.flags && K.ss.custom_divisor == a->ss.custom_divisor && K.ss.baud_base == a->ss.baud_base);
}
/* an opened port, settings arbitrary */
static ttyp *opened(void) {
	kinit();
	ttyp *t = diag_tty_open("/dev/ttyS0");
	VP_ASSUME(t != NULL);
	g_log_n = 0; for (unsigned i = 0; i < 40; i++) { g_log[i] = 0; }
	k_calls = 0;
	return t;
}
void h_open(void) {
	kinit();
	typeof(K) o = K;
	k_fail = FAILAT;
	ttyp *t = diag_tty_open("/dev/ttyS0");
	if (t == NULL) {
		ENSURES("opening fails only if the port does", k_failed);
		ENSURES("nothing is left open or allocated", !K.open && !l_uti && !l_name);
		ENSURES("settings as before", ksame(&o));
		return;
	}
	ENSURES("a failure that matters is reported", !k_failed || FAILAT == 4);
	ENSURES("the named port is opened", K.open && b_eq(g_last, "/dev/ttyS0", 11));
	ENSURES("reads wait for data", !(K.flags & O_NONBLOCK));
	ENSURES("bytes pass unchanged in both directions", !(K.t.c_iflag & (IGNBRK | BRKINT | IGNPAR | PARMRK | INPCK | ISTRIP | INLCR | IGNCR | ICRNL | IXON | IXOFF | IXANY | IUCLC)) && !(K.t.c_oflag & OPOST));
	ENSURES("no line editing, echo or signals", !(K.t.c_lflag & (ICANON | ISIG | ECHO | IEXTEN)));
	ENSURES("receiver on, modem lines ignored, no hardware handshake", (K.t.c_cflag & (CLOCAL | CREAD)) == (CLOCAL | CREAD) && !(K.t.c_cflag & CRTSCTS) && K.t.c_cc[VMIN] == 1);
	ENSURES("other flags as before", ((K.t.c_cflag ^ o.t.c_cflag) & ~(CLOCAL | CREAD | CRTSCTS)) == 0 && K.modem == o.modem);
	k_fail = 0;
	struct diag_serial_settings s = { SPEED, diag_databits_8, diag_stopbits_1, diag_par_n };
	int rv = diag_tty_setup(t, &s);
	ENSURES("set up", rv == 0);
	diag_tty_control(t, vp_bool(), vp_bool());
	diag_tty_close(t);
	ENSURES("closed, everything released", !K.open && !l_uti && !l_name);
	ENSURES("the original settings are restored", ksame(&o) || FAILAT != 0);
	VP_COVER("done", true);
}
void h_setup(void) {
	ttyp *t = opened();
	typeof(K) o = K;
	struct diag_serial_settings s;
	s.speed = SPEED; int db = vp_int(), sb = vp_int(), pf = vp_int();
	s.databits = (enum diag_databits)db; s.stopbits = (enum diag_stopbits)sb; s.parflag = (enum diag_parity)pf;
	k_fail = FAILAT;
	int rv = diag_tty_setup(t, &s);
	bool valid = db >= 5 && db <= 8 && (sb == 1 || sb == 2) && pf >= 1 && pf <= 3;
	ENSURES("success means what was asked for is set", (rv == 0) == (valid && !k_failed) && rv <= 0);
	if (rv == 0) {
		tcflag_t f = K.t2.c_cflag;
		ENSURES("data bits", (f & CSIZE) == (db == 8 ? CS8 : db == 7 ? CS7 : db == 6 ? CS6 : CS5));
		ENSURES("stop bits", ((f & CSTOPB) != 0) == (sb == 2));
		ENSURES("parity", ((f & PARENB) != 0) == (pf != diag_par_n) && (pf == diag_par_n || ((f & PARODD) != 0) == (pf == diag_par_o)));
		ENSURES("speed", (f & CBAUD) == BOTHER && K.t2.c_ispeed == SPEED && K.t2.c_ospeed == SPEED);
		ENSURES("everything else as before", ((f ^ o.t2.c_cflag) & ~(CSIZE | CSTOPB | PARENB | PARODD | CBAUD)) == 0 && K.t2.c_iflag == o.t2.c_iflag && K.t2.c_oflag == o.t2.c_oflag && K.t2.c_lflag == o.t2.c_lflag && K.t2.c_cc[VMIN] == 1 && K.modem == o.modem);
		/* a second change keeps the first one's format */
		VP_COVER("set", true);
	}
	if (!valid) { ENSURES("an invalid format changes nothing", ksame(&o)); }
}
void h_control(void) {
	ttyp *t = opened();
	typeof(K) o = K;
	unsigned d = vp_uint(), r = vp_uint();
	k_fail = FAILAT;
	int rv = diag_tty_control(t, d, r);
	ENSURES("reported", (rv == 0) == !k_failed && rv <= 0);
	if (rv == 0) { ENSURES("exactly DTR and RTS are set or cleared as asked", K.modem == ((o.modem & ~(TIOCM_DTR | TIOCM_RTS)) | (d ? TIOCM_DTR : 0) | (r ? TIOCM_RTS : 0))); VP_COVER("set", d && !r); }
	else { ENSURES("unchanged", K.modem == o.modem); }
	o.modem = K.modem; ENSURES("nothing else changes", ksame(&o));
}
void h_write(void) {
	ttyp *t = opened();
	ssize_t rv = diag_tty_write(t, w_src, CNT);
	bool err = false; unsigned n = 0; const char *e = EV;
	for (unsigned i = 0; e[i]; i++) { if (e[i] == 'e') { err = true; } else if (e[i] == 'T') { break; } else if (e[i] != 'i') { n += (unsigned)(e[i] - '0'); } }
	if (n > CNT) { n = CNT; }
	ENSURES("the bytes leave unchanged and in order, none twice", w_n == n && b_eq(w_out, w_src, n));
	if (err) { ENSURES("an error is reported", rv < 0); }
	else { ENSURES("the number of bytes written", rv == (ssize_t)n); }
	if (rv > 0) { ENSURES("returns when they are sent", g_log[g_log_n - 1] == 'd'); }
	ENSURES("all events used", *g_ev == 0 && (!g_ran || n < CNT));
}
#ifndef TMO
#define TMO 100
#endif
void h_read(void) {
	ttyp *t = opened();
	uint8_t b[16], b0[16];
	for (unsigned i = 0; i < 16; i++) { b[i] = b0[i] = vp_u8(); }
	g_us = 0; k_tmo = TMO;
	ssize_t rv = diag_tty_read(t, b, CNT, TMO);
	bool err = false; unsigned n = 0; const char *e = EV;
	for (unsigned i = 0; e[i]; i++) { if (e[i] == 'e' || e[i] == 'E' || e[i] == '0') { err = true; } else if (e[i] >= '1' && e[i] <= '9') { n += (unsigned)(e[i] - '0'); } }
	if (n > CNT) { n = CNT; }
	ENSURES("the bytes read, in order", r_n == n && b_eq(b, r_in, n));
	for (unsigned i = 0; i < 16; i++) { if (i >= n) { ENSURES("nothing behind them is touched", b[i] == b0[i]); } }
	if (err && n == 0) { ENSURES("an error is reported", rv < 0 && rv != DIAG_ERR_TIMEOUT); }
	else if (err) { ENSURES("an error, or what was read before it", rv < 0 || rv == (ssize_t)n); }
	else if (n == 0) { ENSURES("nothing in time: time-out", rv == DIAG_ERR_TIMEOUT); }
	else { ENSURES("the number of bytes read", rv == (ssize_t)n); }
	ENSURES("not before the time is over", rv != DIAG_ERR_TIMEOUT || g_us >= (unsigned long long)TMO * 1000);
	ENSURES("not later either", g_us <= (unsigned long long)TMO * 1000 + 2000);
	ENSURES("all events used, waits until all bytes came or the time is over", *g_ev == 0 && (n == CNT || err || g_us >= (unsigned long long)TMO * 1000));
}
void h_break(void) {
	ttyp *t = opened();
	unsigned ms = vp_uint();
	REQUIRES(ms <= 10000);
	typeof(K) o = K;
	k_fail = FAILAT;
	int rv = diag_tty_break(t, ms);
	ENSURES("reported", (rv == 0) == (!k_failed || FAILAT == 1) && rv <= 0);
	if (rv == 0) { ENSURES("after everything is sent, a break of the time asked for", b_eq(g_log, FAILAT == 1 ? "BsC" : "dBsC", FAILAT == 1 ? 4 : 5) && g_slept == ms && !K.brk); VP_COVER("break", ms > 100); }
	ENSURES("settings as before", ksame(&o));
}
void h_fastbreak(void) {
	ttyp *t = opened();
	k_tmo = 1000;
	w_src[0] = 0;
	int rv = diag_tty_fastbreak(t, CNT);
	ENSURES("too short to be made", (CNT < 25) == (rv == DIAG_ERR_TIMEOUT));
	if (CNT < 25) { ENSURES("nothing sent", w_n == 0); return; }
	ENSURES("one 0 byte", w_n == 1 && w_out[0] == 0);
	bool ok = r_n == 1;
	ENSURES("done when its echo came", (rv == 0) == ok);
	if (ok) {
		ENSURES("back at 10400 baud 8N1", K.t2.c_ospeed == 10400 && (K.t2.c_cflag & CSIZE) == CS8 && !(K.t2.c_cflag & (PARENB | CSTOPB)));
		unsigned long long tot = g_us + g_slept * 1000;
		ENSURES("the low and high time make up the time asked for", tot >= CNT * 1000 && tot <= (CNT + 1) * 1000);
	}
	VP_COVER("done", ok);
}
void h_flush(void) {
	ttyp *t = opened();
	k_tmo = IFLUSH_TIMEOUT;
	int rv = diag_tty_iflush(t);
	ENSURES("flushed: the driver's buffer, then what still arrives", rv == 0 && g_log[0] == 'f');
	unsigned n = 0; const char *e = EV;
	for (unsigned i = 0; e[i]; i++) { if (e[i] >= '1' && e[i] <= '9') { n += (unsigned)(e[i] - '0'); } }
	ENSURES("all that arrived is gone", r_n == n);
}
#ifndef DA
#define DA
#define DBL
#define MISS 0
#define PORTS
#define NOMEM 0
#endif
void h_ports(void) {
	static const char *const a[] = { DA NULL }, *const b[] = { DBL NULL }, *const want[] = { PORTS NULL };
	kinit();
	for (unsigned i = 0; i < sizeof(a) / sizeof(a[0]); i++) { d_ent[0][i] = a[i]; }
	for (unsigned i = 0; i < sizeof(b) / sizeof(b[0]); i++) { d_ent[1][i] = b[i]; }
	d_miss[0] = MISS & 1; d_miss[1] = (MISS & 2) != 0; d_open[0] = d_open[1] = false; g_nomem = NOMEM; g_nports = 0; g_listfree = false;
	int n = 77;
	char **l = diag_tty_getportlist(&n);
	unsigned w = 0; while (want[w]) { w++; }
	if (NOMEM && w) { ENSURES("no memory: no list", l == NULL && n == 0); }
	else {
		ENSURES("the number of ports", n == (int)w && l == (w ? g_list : NULL));
		for (unsigned i = 0; i < w; i++) { unsigned k = 0; while (want[i][k]) { k++; } ENSURES("each tty with its full path", b_eq(g_ports[i], want[i], k + 1)); }
	}
	ENSURES("nothing is left open", !d_open[0] && !d_open[1] && !K.open);
}
