/* scripted interface for the demonstrations */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "diag.h"
#include "diag_err.h"
#include "diag_os.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_l3.h"
#include "diag_cfg.h"
#include "diag_tty.h"
static uint32_t s_flags;
static int s_protos = 0xff;
static struct { uint8_t b[2048]; int len, pos; } s_q[256]; static int s_nq, s_cq;   /* len 0: time-out, <0: error */
static struct { uint8_t b[2048]; size_t len; } s_log[256]; static int s_nlog;
static void (*s_onsend)(const uint8_t *, size_t);
static int s_sendrv, s_ioctlrv, s_nioctl; static unsigned s_ioctls[256]; static struct diag_l1_initbus_args s_in; static struct diag_serial_settings s_set;
static void q_bytes(const void *p, int n) { memcpy(s_q[s_nq].b, p, n); s_q[s_nq].len = n; s_q[s_nq].pos = 0; s_nq++; }
static void q_tmo(void) { s_q[s_nq].len = 0; s_nq++; }
static void q_err(int e) { s_q[s_nq].len = e; s_nq++; }
static void q_reset(void) { s_nq = s_cq = s_nlog = 0; }
static int s0_init(void) { return 0; }
static int s0_new(struct diag_l0_device *d) { return 0; }
static struct cfgi *s0_cfg(struct diag_l0_device *d) { return NULL; }
static void s0_del(struct diag_l0_device *d) { }
static int s0_open(struct diag_l0_device *d, int p) { d->opened = 1; return 0; }
static void s0_close(struct diag_l0_device *d) { d->opened = 0; }
static uint32_t s0_flags(struct diag_l0_device *d) { return s_flags; }
static int s0_recv(struct diag_l0_device *d, void *data, size_t len, unsigned tmo) {
	if (s_cq >= s_nq) { return DIAG_ERR_TIMEOUT; }
	if (s_q[s_cq].len == 0) { s_cq++; return DIAG_ERR_TIMEOUT; }
	if (s_q[s_cq].len < 0) { return s_q[s_cq++].len; }
	int n = s_q[s_cq].len - s_q[s_cq].pos;
	if (n > (int)len) { n = (int)len; }
	memcpy(data, s_q[s_cq].b + s_q[s_cq].pos, n);
	s_q[s_cq].pos += n;
	if (s_q[s_cq].pos == s_q[s_cq].len) { s_cq++; }
	return n;
}
static int s0_send(struct diag_l0_device *d, const void *data, size_t len) {
	if (s_sendrv) { return s_sendrv; }
	if (s_nlog < 256 && len <= 2048) { memcpy(s_log[s_nlog].b, data, len); s_log[s_nlog].len = len; s_nlog++; }
	if (s_onsend) { s_onsend(data, len); }
	return 0;
}
static int s0_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) {
	if (s_nioctl < 256) { s_ioctls[s_nioctl++] = cmd; }
	if (cmd == DIAG_IOCTL_INITBUS) { s_in = *(struct diag_l1_initbus_args *)data; }
	if (cmd == DIAG_IOCTL_SETSPEED) { s_set = *(struct diag_serial_settings *)data; }
	return s_ioctlrv;
}
static const struct diag_l0 s0 = { "scripted", "SCR", 0xff, s0_init, s0_new, s0_cfg, s0_del, s0_open, s0_close, s0_flags, s0_recv, s0_send, s0_ioctl };
static struct diag_l0_device s_dev = { NULL, &s0, 0 };
#define DIE(...) do { printf("DEMO FAIL line %d: ", __LINE__); printf(__VA_ARGS__); printf("\n"); exit(1); } while (0)
static struct diag_l2_conn *s_start(int l1, int l2, uint32_t fl, unsigned speed, uint8_t tgt, uint8_t src) {
	struct diag_l2_conn *c;
	diag_init();
	if (diag_l2_open(&s_dev, l1)) { DIE("open"); }
	c = diag_l2_StartCommunications(&s_dev, l2, fl, speed, tgt, src);
	return c;
}
