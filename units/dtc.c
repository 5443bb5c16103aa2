/* C19: DTC texts. Real code: diag_dtc.c */
#include "stubs_l1.h"
#define FMT_ABSTRACT
#include "fmt.h"
#include "diag_dtc.c"
#undef snprintf
static uint8_t d[2]; static char out[48];
/* J2012: two bits area, two bits first digit (0-3), three hexadecimal digits */
static char digit(unsigned v) { return (char)(v < 10 ? '0' + v : 'A' + (v - 10)); }
void h_dtc(void) {
	int n = vp_int();
	REQUIRES(n >= 0 && n <= 2);
	size_t size = vp_size();
	REQUIRES(size <= 40);
	uint8_t *p = d + (2 - n);
	d[0] = vp_u8(); d[1] = vp_u8();
	char *b = out + (48 - size);
	int pr = vp_int();
	for (unsigned i = 0; i < 48; i++) { out[i] = '~'; }
	const char *r = diag_dtc_decode(p, n, NULL, NULL, (enum diag_dtc_protocol)pr, b, size);
	ENSURES("the buffer is the result", r == b);
	for (unsigned i = 0; i < 48; i++) { if (i < 48 - size) { ENSURES("nothing is written in front of the buffer", out[i] == '~'); } }
	if (size == 0) { return; }
	bool term = false;
	for (unsigned i = 0; i < 40; i++) { if (i < size && b[i] == 0) { term = true; } }
	ENSURES("the text is terminated inside the buffer", term);
	if (pr == dtc_proto_j2012 && n == 2) {
		static const char areas[] = "PCBU";
		char x[8] = { areas[d[0] >> 6], digit((d[0] >> 4) & 3), digit(d[0] & 15), digit(d[1] >> 4), digit(d[1] & 15), ' ', 0, 0 };
		for (unsigned i = 0; i < 7; i++) { if (i + 1 < size) { ENSURES("area letter, digit 0-3, three hexadecimal digits and a blank", b[i] == x[i]); } }
	} else if (size > 4) {
		ENSURES("anything else gives no code but a message", b[0] && b[1] && b[2] && b[3] && !(b[1] >= '0' && b[1] <= '9'));
	}
}
