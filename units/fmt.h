/*
 * Executable contract of snprintf (C11 7.21.6.5) for the conversions the code
 * uses: %s, %c, %d, %u, %x, %X, %%, with a zero-padded width for the hexadecimal
 * ones. "%0NX" prints N digits and requires the value to fit in them. %d/%u/%X
 * without a width are exact for values the verifier knows; for others one
 * digit stands for the number. Output beyond size - 1 is cut off, the result is terminated.
 */
#ifndef FMT_H
#define FMT_H
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
static const char vf_hexU[] = "0123456789ABCDEF", vf_hexl[] = "0123456789abcdef";
static size_t vf_put(char *b, size_t n, size_t p, char c) { if (p + 1 < n) { b[p] = c; } return p + 1; }
#ifndef VF_DOUBLE
#define VF_DOUBLE(b, n, p, prec, d) (p)
#endif
static int vp_vfmt(char *b, size_t n, const char *f, va_list ap) {
	size_t p = 0;
	for (unsigned i = 0; f[i]; i++) {
		if (f[i] != '%') { p = vf_put(b, n, p, f[i]); continue; }
		i++;
		unsigned w = 0, prec = 6;
		if (f[i] == '#') { p = vf_put(b, n, p, '0'); p = vf_put(b, n, p, 'x'); i++; }
		char pad = f[i] == '0' ? '0' : ' ';
		while (f[i] >= '0' && f[i] <= '9') { w = w * 10 + (unsigned)(f[i] - '0'); i++; }
		if (f[i] == '.') { i++; prec = 0; while (f[i] >= '0' && f[i] <= '9') { prec = prec * 10 + (unsigned)(f[i] - '0'); i++; } }
		bool lng = false;
		while (f[i] == 'l' || f[i] == 'z') { lng = true; i++; }
		if (f[i] == 's') {
			const char *s = va_arg(ap, const char *);
			VP_CHECK("snprintf.pre: a string", s != NULL);
			for (unsigned k = 0; s[k]; k++) { p = vf_put(b, n, p, s[k]); }
		} else if (f[i] == 'c') { p = vf_put(b, n, p, (char)va_arg(ap, int)); }
		else if (f[i] == 'x' || f[i] == 'X') {
			unsigned v;
			if (lng) { v = (unsigned)va_arg(ap, unsigned long); } else { v = va_arg(ap, unsigned); }
			if (w == 0) {
#ifdef FMT_ABSTRACT
				w = 1; v &= 15;
#else
				w = 1; while (w < 8 && v >> (4 * w)) { w++; }
#endif
			}
			VP_CHECK("number fits in its field", w >= 8 || v >> (4 * w) == 0);
			for (unsigned k = w; k > 0; k--) { p = vf_put(b, n, p, (f[i] == 'X' ? vf_hexU : vf_hexl)[(v >> (4 * (k - 1))) & 15]); }
		} else if (f[i] == 'd' || f[i] == 'i' || f[i] == 'u') {
			long v;
			if (lng) { v = va_arg(ap, long); } else { int iv = va_arg(ap, int); v = iv; if (f[i] == 'u') { v = (long)(unsigned)iv; } }
#ifdef FMT_ABSTRACT
			p = vf_put(b, n, p, (char)('0' + (v & 7)));
#else
			char t[24]; unsigned k = 0; bool neg = v < 0; unsigned long u = neg ? -(unsigned long)v : (unsigned long)v;
			do { t[k++] = (char)('0' + u % 10); u /= 10; } while (u);
			if (neg) { t[k++] = '-'; }
			while (k < w && k < sizeof(t)) { t[k++] = pad; }
			while (k > 0) { p = vf_put(b, n, p, t[--k]); }
#endif
		} else if (f[i] == 'f') { double d = va_arg(ap, double); (void)d; p = VF_DOUBLE(b, n, p, prec, d); }
		else if (f[i] == 'p') { (void)va_arg(ap, void *); p = vf_put(b, n, p, 'p'); }
		else { VP_CHECK("a known conversion", f[i] == '%'); p = vf_put(b, n, p, '%'); }
	}
	if (n > 0) { b[p < n ? p : n - 1] = 0; }
	return (int)p;
}
static int vp_snprintf(char *b, size_t n, const char *f, ...) {
	va_list ap; va_start(ap, f);
	int r = vp_vfmt(b, n, f, ap);
	va_end(ap);
	return r;
}
/* the default argument promotions, which the verifier's front end leaves out */
#define VF_P(x) _Generic((x), char: (int)(x), signed char: (int)(x), unsigned char: (int)(x), _Bool: (int)(x), short: (int)(x), unsigned short: (int)(x), default: (x))
#define VF_CNT_(a0, a1, a2, a3, a4, a5, a6, a7, a8, n, ...) n
#define VF_CNT(...) VF_CNT_(__VA_ARGS__, 8, 7, 6, 5, 4, 3, 2, 1, 0)
#define VF_0(f) f
#define VF_1(f, a) f, VF_P(a)
#define VF_2(f, a, b) f, VF_P(a), VF_P(b)
#define VF_3(f, a, b, c) f, VF_P(a), VF_P(b), VF_P(c)
#define VF_4(f, a, b, c, d) f, VF_P(a), VF_P(b), VF_P(c), VF_P(d)
#define VF_5(f, a, b, c, d, e) f, VF_P(a), VF_P(b), VF_P(c), VF_P(d), VF_P(e)
#define VF_6(f, a, b, c, d, e, g) f, VF_P(a), VF_P(b), VF_P(c), VF_P(d), VF_P(e), VF_P(g)
#define VF_CAT_(a, b) a##b
#define VF_CAT(a, b) VF_CAT_(a, b)
#define VF_ARGS(...) VF_CAT(VF_, VF_CNT(__VA_ARGS__))(__VA_ARGS__)
#define snprintf(b, n, ...) vp_snprintf(b, n, VF_ARGS(__VA_ARGS__))
#endif
