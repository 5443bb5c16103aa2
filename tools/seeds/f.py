TTYH = '''#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include "diag.h"
#include "diag_tty.h"
#include "diag_err.h"
#include "diag_tty_unix.h"
#define DIE(...) do { fprintf(stderr, __VA_ARGS__); fprintf(stderr, "\\n"); _exit(1); } while (0)
/* a scripted tty on file descriptor 77; nothing real is touched */
#define FD 77
static struct termios2 K; static int modem; static const char *EV = ""; static unsigned char out[64]; static int nout, nin; static unsigned long long waited;
static void get(struct termios *t) { t->c_iflag = K.c_iflag; t->c_oflag = K.c_oflag; t->c_cflag = K.c_cflag; t->c_lflag = K.c_lflag; memcpy(t->c_cc, K.c_cc, 19); }
static void set(struct termios *t) { K.c_iflag = t->c_iflag; K.c_oflag = t->c_oflag; K.c_cflag = t->c_cflag; K.c_lflag = t->c_lflag; memcpy(K.c_cc, t->c_cc, 19); }
int open(const char *n, int fl, ...) { if (!strcmp(n, "/dev/ttyDEMO")) { return FD; } return (int)syscall(SYS_openat, AT_FDCWD, n, fl, 0); }
int close(int fd) { if (fd == FD) { return 0; } return (int)syscall(SYS_close, fd); }
int fcntl(int fd, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); if (fd == FD) { return 0; } return (int)syscall(SYS_fcntl, fd, c, x); }
int ioctl(int fd, unsigned long c, ...) {
	va_list a; va_start(a, c); void *p = va_arg(a, void *); va_end(a);
	if (fd != FD) { return (int)syscall(SYS_ioctl, fd, c, p); }
	if (c == TCGETS) { get(p); return 0; }
	if (c == TCSETS) { set(p); return 0; }
	if (c == TCGETS2) { memcpy(p, &K, sizeof(K)); return 0; }
	if (c == TCSETS2) { memcpy(&K, p, sizeof(K)); return 0; }
	if (c == TIOCMGET) { *(int *)p = modem; return 0; }
	if (c == TIOCMSET) { modem = *(int *)p; return 0; }
	if (c == TCSBRK || c == TCFLSH) { return 0; }
	errno = ENOTTY; return -1;
}
static char ev(void) { return *EV ? *EV++ : 'T'; }
ssize_t write(int fd, const void *p, size_t n) {
	if (fd != FD) { return syscall(SYS_write, fd, p, n); }
	char e = ev(); if (e == 'i') { errno = EINTR; return -1; }
	size_t k = e - '0'; if (k > n) { k = n; }
	memcpy(out + nout, p, k); nout += k; return k;
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
	char e = ev(); unsigned long long us = tv->tv_sec * 1000000ULL + tv->tv_usec;
	if (e == 'r') { return 1; }
	if (e == 'i') { usleep(us / 2); waited += us / 2; errno = EINTR; return -1; }
	usleep(us); waited += us; FD_ZERO(r); return 0;
}
ssize_t read(int fd, void *p, size_t n) {
	if (fd != FD) { return syscall(SYS_read, fd, p, n); }
	char e = ev(); if (e == 'i') { errno = EINTR; return -1; }
	size_t k = e - '0'; if (k > n) { k = n; }
	for (size_t i = 0; i < k; i++) { ((unsigned char *)p)[i] = 0x40 + nin++; } return k;
}
#include "diag_os.h"
static ttyp *start(void) {
	diag_os_init();
	K.c_iflag = IXON | IXOFF | ICRNL; K.c_cflag = CS7 | B9600 | PARENB | PARODD; K.c_lflag = ICANON | ECHO; K.c_ispeed = K.c_ospeed = 9600;
	ttyp *t = diag_tty_open("/dev/ttyDEMO"); if (!t) { DIE("not opened"); } return t;
}
'''
SEED("S24a", "C24", "diag_tty_unix.c", [("		rv = write(uti->fd,  &p[n], c);\n		if (rv == -1 && errno == EINTR) {", "		rv = write(uti->fd, p, c);\n		if (rv == -1 && errno == EINTR) {")],
 TTYH + '''int main(void) {
	ttyp *t = start(); struct diag_serial_settings s = { 1200, diag_databits_8, diag_stopbits_1, diag_par_n }; diag_tty_setup(t, &s);
	EV = "2i3";
	ssize_t rv = diag_tty_write(t, "\\x81\\x10\\xf1\\x81\\x03", 5);
	if (rv != 5 || nout != 5 || memcmp(out, "\\x81\\x10\\xf1\\x81\\x03", 5)) { DIE("wrong bytes left"); }
	_exit(0);
}''', "a write the system takes only partly", "the first bytes are sent again instead of the remaining ones")
SEED("S24b", "C24", "diag_tty_unix.c", [("			rmn = timeout*1000 - tdone_us;  //remaining before timeout\n", "			rmn = timeout*1000;     //remaining before timeout\n")],
 TTYH + '''int main(void) {
	ttyp *t = start(); unsigned char b[4];
	EV = "iT";
	ssize_t rv = diag_tty_read(t, b, 4, 400);
	if (rv != DIAG_ERR_TIMEOUT) { DIE("rv %ld", (long)rv); }
	if (waited > 450000) { DIE("waited %llu us instead of 400 ms", waited); }
	_exit(0);
}''', "a wait interrupted by the periodic timer's signal", "the time-out starts again and is exceeded")
SEED("S24c", "C24", "diag_tty_unix.c", [("		st_new.c_cflag |= PARENB;\n		st_new.c_cflag &= ~PARODD;\n", "		st_new.c_cflag |= PARENB;\n")],
 TTYH + '''int main(void) {
	ttyp *t = start(); struct diag_serial_settings s = { 1200, diag_databits_7, diag_stopbits_1, diag_par_e };
	if (diag_tty_setup(t, &s)) { DIE("setup"); }
	if (!(K.c_cflag & PARENB) || (K.c_cflag & PARODD)) { DIE("not even parity"); }
	_exit(0);
}''', "even parity on a port that was on odd parity before", "parity stays odd")
SEED("S24d", "C24", "diag_tty_unix.c", [("	                         | INPCK | ISTRIP | INLCR | IGNCR | ICRNL | IXON | IXOFF\n", "	                         | INPCK | ISTRIP | INLCR | IGNCR | ICRNL | IXOFF\n")],
 TTYH + '''int main(void) {
	start();
	if (K.c_iflag & (IXON | IXOFF)) { DIE("software flow control is left on: 0x11 and 0x13 are swallowed"); }
	_exit(0);
}''', "a port with software flow control on before it is opened", "it stays on, so that data bytes 0x11 and 0x13 are lost")
SEED("S24e", "C24", "diag_tty_unix.c", [("	flags |= setflags;\n	flags &= ~clearflags;\n", "	flags &= ~clearflags;\n	flags ^= setflags;\n")],
 TTYH + '''int main(void) {
	ttyp *t = start();
	modem = TIOCM_DTR;
	if (diag_tty_control(t, 1, 0) || modem != TIOCM_DTR) { DIE("DTR %x", modem); }
	_exit(0);
}''', "setting DTR when it is set already", "DTR is cleared")
