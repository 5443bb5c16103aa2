/* C15: appending to a text buffer. Real code: diag_general.c */
#include "general.h"
#undef snprintf
static char b[12], q[9];
void h_smartcat(void) {
	size_t size = vp_size(), l1 = vp_size(), l2 = vp_size();
	REQUIRES(size >= 1 && size <= 10 && l1 < size && l2 <= 8);
	char *p = b + (10 - size), o[12];
	for (unsigned i = 0; i < 12; i++) { b[i] = (char)vp_u8(); }
	for (unsigned i = 0; i < 10; i++) { if (i < l1) { REQUIRES(p[i] != 0); } }
	p[l1] = 0;
	for (unsigned i = 0; i < 8; i++) { q[i] = (char)vp_u8(); if (i < l2) { REQUIRES(q[i] != 0); } }
	q[l2] = 0;
	for (unsigned i = 0; i < 12; i++) { o[i] = b[i]; }
	smartcat(p, size, q);
	size_t n = l1 + l2 < size ? l1 + l2 : size - 1;
	for (unsigned i = 0; i < 12; i++) {
		if (i < 10 - size || i >= 10) { ENSURES("nothing outside the buffer is written", b[i] == o[i]); }
		else {
			unsigned k = i - (10 - (unsigned)size);
			if (k < l1) { ENSURES("the text stays", b[i] == o[i]); }
			else if (k < n) { ENSURES("followed by the other one, as far as it fits", b[i] == q[k - l1]); }
			else if (k == n) { ENSURES("and the end", b[i] == 0); }
		}
	}
}
