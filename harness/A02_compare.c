//@ sources: arrays
//@ unwind: 12
//@ quick: -DN=5
//@ thorough: -DN=8
//@ bounds: every pair of texts of 0..N bytes, every length limit
#include "env.h"
static unsigned low(unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32u : c; }
void harness(void) {
	unsigned char a[N + 1], b[N + 1];
	unsigned al = vp_range(0, N), bl = vp_range(0, N), i;
	for (i = 0; i < N; i++) { a[i] = vp_u8(); VP_ASSUME(i >= al || a[i]); b[i] = vp_u8(); VP_ASSUME(i >= bl || b[i]); }
	a[al] = 0; b[bl] = 0;
	unsigned long lim = vp_u64();
	int eq = al == bl, ci = al == bl, lc = lim != 0;
	for (i = 0; i <= N; i++) {
		if (i < al && i < bl) { if (a[i] != b[i]) eq = 0; if (low(a[i]) != low(b[i])) ci = 0; }
		if (i < lim && i <= al && i <= bl && low(a[i]) != low(b[i])) lc = 0;
	}
	VP_ASSERT(str_is((char *)a, (char *)b) == eq, "equality is byte equality");
	VP_ASSERT(str_is_case((char *)a, (char *)b) == ci, "caseless equality is byte equality after ASCII lower-casing");
	VP_ASSERT(str_case_equal((char *)a, (char *)b, lim) == lc, "caseless prefix equality looks at the first len bytes only");
	VP_ASSERT(!str_is(NULL, (char *)b) && !str_is((char *)a, NULL) && !str_is_case(NULL, (char *)b) && !str_is_case((char *)a, NULL), "NULL equals nothing");
	VP_ASSERT(str_is_empty((char *)a) == (al == 0) && str_is_empty(NULL), "emptiness");
	unsigned char c[N + 1];
	memcpy(c, a, N + 1);
	VP_ASSERT(str_tolower((char *)c) == (char *)c, "case conversion is in place");
	for (i = 0; i <= N; i++) if (i <= al) VP_ASSERT(c[i] == low(a[i]), "lower-casing changes ASCII capitals only");
	memcpy(c, a, N + 1);
	str_toupper((char *)c);
	for (i = 0; i <= N; i++) if (i <= al) VP_ASSERT(c[i] == (a[i] >= 'a' && a[i] <= 'z' ? a[i] - 32 : a[i]), "upper-casing changes ASCII small letters only");
	VP_REACH(1);
	if (ci && !eq) VP_REACH(2);
}
