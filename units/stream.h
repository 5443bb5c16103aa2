/* A byte stream behind diag_l1_recv: AVAIL bytes of g_raw arrive, each read gives at
 * most CHUNK of them (and never more than asked for), then TAIL for ever (0: time-out). */
#ifndef AVAIL
#define AVAIL 0
#endif
#ifndef CHUNK
#define CHUNK 255
#endif
#ifndef TAIL
#define TAIL 0
#endif
static uint8_t g_raw[AVAIL + 1];
static struct { unsigned reads, got; int hard; bool failed; unsigned last_tout, first_tout; } R;
static struct diag_l0_device g_dev;
static int stream_recv(struct diag_l0_device *d, void *p, size_t n, unsigned tout) {
	VP_CHECK("diag_l1_recv.pre", d == &g_dev && n >= 1 && VP_W_OK(p, n));
	if (R.reads == 0) { R.first_tout = tout; }
	R.reads++;
	unsigned k = AVAIL - R.got;
	if (k > CHUNK) { k = CHUNK; }
	if (k > n) { k = (unsigned)n; }
	if (k == 0) { R.failed = true; R.hard = TAIL; return TAIL ? TAIL : DIAG_ERR_TIMEOUT; }
	for (unsigned i = 0; i < k; i++) { ((uint8_t *)p)[i] = g_raw[R.got + i]; }
	R.got += k;
	return (int)k;
}
