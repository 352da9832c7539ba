/* C models of the libc functions CBMC has no body for (C locale). Only used by CBMC:
 * the native replay links the real libc. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
void *memcpy(void *, const void *, size_t);

static const unsigned short vpm_ctype[384] = {
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
2,2,2,2,2,2,2,2,2,8195,8194,8194,8194,8194,2,2,
2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
24577,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,
55304,55304,55304,55304,55304,55304,55304,55304,55304,55304,49156,49156,49156,49156,49156,49156,
49156,54536,54536,54536,54536,54536,54536,50440,50440,50440,50440,50440,50440,50440,50440,50440,
50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,49156,49156,49156,49156,49156,
49156,54792,54792,54792,54792,54792,54792,50696,50696,50696,50696,50696,50696,50696,50696,50696,
50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,49156,49156,49156,49156,2,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
};
static const unsigned short *vpm_ctype_p = vpm_ctype + 128;
const unsigned short **__ctype_b_loc(void) { return &vpm_ctype_p; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int32_t vpm_lower[384], vpm_upper[384];

void *memchr(const void *s, int c, size_t n) {
	const unsigned char *p = s;
	size_t i;
	for (i = 0; i < n; i++)
		if (p[i] == (unsigned char)c) return (void *)(p + i);
	return 0;
}
void *memrchr(const void *s, int c, size_t n) {
	const unsigned char *p = s;
	while (n--)
		if (p[n] == (unsigned char)c) return (void *)(p + n);
	return 0;
}
char *strstr(const char *h, const char *n) {
	size_t i;
	for (;; h++) {
		for (i = 0; n[i] && h[i] == n[i]; i++) ;
		if (!n[i]) return (char *)h;
		if (!*h) return 0;
	}
}
void *memmem(const void *hs, size_t hl, const void *ns, size_t nl) {
	const unsigned char *h = hs, *n = ns;
	size_t i, j;
	if (nl == 0) return (void *)h;
	for (i = 0; i + nl <= hl; i++) {
		for (j = 0; j < nl && h[i + j] == n[j]; j++) ;
		if (j == nl) return (void *)(h + i);
	}
	return 0;
}
size_t strspn(const char *s, const char *a) {
	size_t i, j;
	for (i = 0; s[i]; i++) {
		for (j = 0; a[j] && a[j] != s[i]; j++) ;
		if (!a[j]) break;
	}
	return i;
}
size_t strcspn(const char *s, const char *a) {
	size_t i, j;
	for (i = 0; s[i]; i++) {
		for (j = 0; a[j] && a[j] != s[i]; j++) ;
		if (a[j]) break;
	}
	return i;
}
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
size_t strnlen(const char *s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++) ; return i; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }

static int vpm_digit(int c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'z') return c - 'a' + 10;
	if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
	return 99;
}
static unsigned long vpm_strtoul(const char *s, char **e, int base, int *neg, int *any, int *ovf) {
	const char *p = s;
	unsigned long v = 0;
	*neg = *any = *ovf = 0;
	while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
	if (*p == '-' || *p == '+') *neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && vpm_digit(p[2]) < 16) {
		p += 2; base = 16;
	} else if (base == 0) base = *p == '0' ? 8 : 10;
	while (vpm_digit((unsigned char)*p) < base) {
		unsigned d = vpm_digit((unsigned char)*p);
		if (v > (~0UL - d) / base) *ovf = 1; else v = v * base + d;
		*any = 1; p++;
	}
	if (e) *e = (char *)(*any ? p : s);
	return v;
}
unsigned long strtoul(const char *s, char **e, int base) {
	int neg, any, ovf;
	unsigned long v = vpm_strtoul(s, e, base, &neg, &any, &ovf);
	if (ovf) { errno = ERANGE; return ~0UL; }
	return neg ? -v : v;
}
long strtol(const char *s, char **e, int base) {
	int neg, any, ovf;
	unsigned long v = vpm_strtoul(s, e, base, &neg, &any, &ovf);
	if (!neg && (ovf || v > 0x7fffffffffffffffUL)) { errno = ERANGE; return 0x7fffffffffffffffL; }
	if (neg && (ovf || v > 0x8000000000000000UL)) { errno = ERANGE; return -0x7fffffffffffffffL - 1; }
	return neg ? (long)-v : (long)v;
}
unsigned long __isoc23_strtoul(const char *s, char **e, int base) { return strtoul(s, e, base); }
long __isoc23_strtol(const char *s, char **e, int base) { return strtol(s, e, base); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
long atol(const char *s) { return strtol(s, 0, 10); }

/* formatting: the conversions the library uses */
static size_t vpm_put(char *d, size_t n, size_t at, char c) { if (d && at + 1 < n) d[at] = c; return at + 1; }
int vsnprintf(char *d, size_t n, const char *f, va_list ap) {
	size_t at = 0;
	for (; *f; f++) {
		if (*f != '%') { at = vpm_put(d, n, at, *f); continue; }
		f++;
		{
			int zero = 0, width = 0, lng = 0, prec = -1, neg = 0, k = 0, j;
			unsigned long v = 0;
			char t[24];
			if (*f == '0') { zero = 1; f++; }
			while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
			if (*f == '.') {
				f++; prec = 0;
				if (*f == '*') { prec = va_arg(ap, int); f++; }
				while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
			}
			while (*f == 'l' || *f == 'z' || *f == 'j') { lng = 1; f++; }
			while (*f == 'h') f++;
			if (*f == '%') { at = vpm_put(d, n, at, '%'); continue; }
			if (*f == 'c') { at = vpm_put(d, n, at, (char)va_arg(ap, int)); continue; }
			if (*f == 's') {
				const char *s = va_arg(ap, const char *);
				int i;
				if (!s) s = "(null)";
				for (i = 0; (prec < 0 || i < prec) && s[i]; i++) at = vpm_put(d, n, at, s[i]);
				for (; i < width; i++) at = vpm_put(d, n, at, ' ');
				continue;
			}
			if (*f == 'd' || *f == 'i') {
				long x = lng ? va_arg(ap, long) : (long)va_arg(ap, int);
				neg = x < 0; v = neg ? -(unsigned long)x : (unsigned long)x;
			} else if (*f == 'u' || *f == 'x' || *f == 'X' || *f == 'p')
				v = lng || *f == 'p' ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned);
			do {
				unsigned g = *f == 'x' || *f == 'p' || *f == 'X' ? v & 15 : v % 10;
				t[k++] = g < 10 ? '0' + g : (*f == 'X' ? 'A' : 'a') + g - 10;
				v = *f == 'x' || *f == 'p' || *f == 'X' ? v >> 4 : v / 10;
			} while (v);
			for (j = k + neg; !zero && j < width; j++) at = vpm_put(d, n, at, ' ');
			if (neg) at = vpm_put(d, n, at, '-');
			for (j = k + neg; zero && j < width; j++) at = vpm_put(d, n, at, '0');
			while (k) at = vpm_put(d, n, at, t[--k]);
		}
	}
	if (d && n) d[at < n ? at : n - 1] = 0;
	return (int)at;
}
int snprintf(char *d, size_t n, const char *f, ...) {
	va_list ap; int r;
	va_start(ap, f); r = vsnprintf(d, n, f, ap); va_end(ap);
	return r;
}
int sprintf(char *d, const char *f, ...) {
	va_list ap; int r;
	va_start(ap, f); r = vsnprintf(d, 1UL << 40, f, ap); va_end(ap);
	return r;
}
/* diagnostics have no effect on any property */
int vfprintf(void *s, const char *f, va_list ap) { return 1; }
int fprintf(void *s, const char *f, ...) { return 1; }
int printf(const char *f, ...) { return 1; }
int puts(const char *f) { return 1; }
int fflush(void *s) { return 0; }
size_t fwrite(const void *p, size_t a, size_t b, void *s) { return b; }
void perror(const char *s) { }
