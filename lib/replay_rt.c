/* Runtime of the counterexample replayer: feeds recorded (or, for the
 * labelled-bounded fallback, pseudo-random) values to a unit compiled natively.
 *  usage: prog VALUES        replay the values in file VALUES (hex, one per line)
 *         prog -r SEED N     N runs with pseudo-random values, each in a child
 * exit: 0 nothing violated, 99 contract violated, 97 sanitizer, 77 values do not
 * satisfy the preconditions */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
static uint8_t *vals[1 << 20]; static int lens[1 << 20]; static size_t nv, iv;
static int rnd; static uint64_t st; static int biased;
static uint64_t r64(void) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
static uint64_t rv(int bytes) {
	uint64_t r = r64(), v = r64();
	switch (r % 8) {
	case 0: v = 0; break;
	case 1: v &= 7; break;
	case 2: v &= 1; break;
	case 3: v &= 0xff; break;
	case 4: v = (uint64_t)-(int64_t)(v % 24); break;
	default: break;
	}
	if (bytes < 8) v &= (((uint64_t)1 << (8 * bytes)) - 1);
	return v;
}
uint64_t vp_next(int bytes) {
	uint64_t v = 0;
	if (rnd) return rv(bytes);
	if (iv >= nv) return 0;
	memcpy(&v, vals[iv], lens[iv] < bytes ? lens[iv] : bytes);
	iv++;
	return v;
}
void vp_nextbytes(void *dst, size_t n) {
	memset(dst, 0, n);
	if (rnd) { for (size_t i = 0; i < n; i++) ((uint8_t *)dst)[i] = (uint8_t)rv(1); return; }
	if (iv >= nv) return;
	memcpy(dst, vals[iv], (size_t)lens[iv] < n ? (size_t)lens[iv] : n);
	iv++;
}
void vp_fail(const char *name, const char *file, int line) {
	fflush(stdout);
	fprintf(stderr, "\nREPLAY-VIOLATION %s (%s:%d)\n", name, file, line); fflush(stderr); _exit(99);
}
void vp_invalid(const char *file, int line) {
	fprintf(stderr, "\nREPLAY-INVALID precondition %s:%d\n", file, line); fflush(stderr); _exit(77);
}
void VP_ENTRY(void);
int main(int argc, char **argv) {
	if (argc == 4 && !strcmp(argv[1], "-r")) {
		uint64_t seed = strtoull(argv[2], 0, 10); long n = atol(argv[3]); long ok = 0, inv = 0;
		for (long i = 0; i < n; i++) {
			pid_t p = fork();
			if (p == 0) { rnd = 1; st = seed * 0x9E3779B97F4A7C15ull + (uint64_t)i * 0xD1B54A32D192ED03ull + 88172645463325252ull;
				for (int k = 0; k < 8; k++) r64();
				freopen("/dev/null", "w", stdout); if (!getenv("VP_VERBOSE")) freopen("/dev/null", "w", stderr); alarm(10); VP_ENTRY(); _exit(0); }
			int s; waitpid(p, &s, 0);
			if (WIFEXITED(s) && WEXITSTATUS(s) == 0) ok++;
			else if (WIFEXITED(s) && WEXITSTATUS(s) == 77) inv++;
			else { printf("RANDOM-VIOLATION run %ld status %x\n", i, s); return WIFEXITED(s) ? WEXITSTATUS(s) : 96; }
		}
		printf("RANDOM ok=%ld precondition-false=%ld\n", ok, inv);
		return 0;
	}
	FILE *f = fopen(argv[1], "r"); static char buf[1 << 20];
	if (!f) return 2;
	while (fgets(buf, sizeof(buf), f)) {
		size_t l = strcspn(buf, "\n"); buf[l] = 0;
		if (!l || buf[0] == '#') continue;
		uint8_t *b = malloc(l / 2 + 1);
		for (size_t i = 0; i < l / 2; i++) { unsigned x; sscanf(buf + 2 * i, "%2x", &x); b[i] = x; }
		vals[nv] = b; lens[nv] = l / 2; nv++;
	}
	fclose(f);
	VP_ENTRY();
	fprintf(stderr, "REPLAY-OK no violation\n");
	return 0;
}
