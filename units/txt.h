/* texts: exact comparison, and the contract of smartcat (proved in smartcat.c) */
#ifndef TXT_H
#define TXT_H
#include "fmt.h"
static size_t tx_len(const char *s, size_t max) { size_t i = 0; while (i < max && s[i]) { i++; } return i; }
static bool tx_eq(const char *a, const char *b, size_t max) {   /* a (in a buffer of max bytes) is the text b */
	size_t i = 0;
	for (; i < max && b[i]; i++) { if (a[i] != b[i]) { return false; } }
	return i < max && a[i] == 0;
}
static bool tx_starts(const char *a, const char *b) { for (size_t i = 0; b[i]; i++) { if (a[i] != b[i]) { return false; } } return true; }
void smartcat(char *p1, const size_t s1, const char *p2) {
	size_t l = tx_len(p1, s1), i;
	VP_CHECK("smartcat.pre: a text in its buffer", l < s1);
	for (i = 0; l + i + 1 < s1 && p2[i]; i++) { p1[l + i] = p2[i]; }
	p1[l + i] = 0;
}
#endif
