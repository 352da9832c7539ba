//@ sources: arrays
//@ unwind: 10
//@ quick: -DN=4 -DD=2 -DW=2
//@ thorough: -DN=5 -DD=2 -DW=3 unwind=8
//@ bounds: every text of 0..N bytes, needle 1..D, replacement 0..W
#define VP_POOL (N*W+N+2)
#include "env.h"
void harness(void) {
	unsigned char s[N + 1], d[D + 1], w[W + 1], out[N * W + N + 1];
	unsigned sl = vp_range(0, N), dl = vp_range(1, D), wl = vp_range(0, W), i, j, o = 0, hits = 0;
	for (i = 0; i < N; i++) { s[i] = vp_u8(); VP_ASSUME(i >= sl || s[i]); }
	for (i = 0; i < D; i++) { d[i] = vp_u8(); VP_ASSUME(i >= dl || d[i]); }
	for (i = 0; i < W; i++) { w[i] = vp_u8(); VP_ASSUME(i >= wl || w[i]); }
	s[sl] = 0; d[dl] = 0; w[wl] = 0;
	for (i = 0; i < sl;) {
		for (j = 0; j < dl && i + j < sl && s[i + j] == d[j]; j++) ;
		if (j == dl) { hits++; for (j = 0; j < wl; j++) out[o++] = w[j]; i += dl; }
		else out[o++] = s[i++];
	}
	out[o] = 0;
	char *r = str_swap_ex((char *)s, (char *)d, (char *)w);
	if (!hits) { VP_ASSERT(r == NULL, "no occurrence, no result"); VP_REACH(1); return; }
	VP_ASSERT(r != NULL, "an occurrence gives a result");
	for (i = 0; i <= o; i++) VP_ASSERT((unsigned char)r[i] == out[i], "every occurrence, left to right, is replaced and nothing else changes");
	VP_ASSERT(str_swap_ex(NULL, (char *)d, (char *)w) == NULL && str_swap_ex((char *)s, NULL, (char *)w) == NULL && str_swap_ex((char *)s, (char *)d, NULL) == NULL, "NULL arguments give NULL");
	VP_REACH(2);
	if (hits > 1) VP_REACH(3);
}
