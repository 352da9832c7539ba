//@ sources: arrays
//@ unwind: 7
//@ quick: -DH=5 -DP=3
//@ variants: -DMODE=1; -DMODE=2
//@ thorough: -DH=7 -DP=3 unwind=9
//@ bounds: every text of 0..H bytes, every pattern of 0..P bytes (and NULL), memory variants with embedded NULs
#include "env.h"

static int first(const unsigned char *h, unsigned hl, const unsigned char *p, unsigned pl) {
	unsigned i, j;
	for (i = 0; i <= H; i++) {
		if (i + pl > hl) return -1;
		for (j = 0; j < pl && h[i + j] == p[j]; j++) ;
		if (j == pl) return i;
	}
	return -1;
}
static int count(const unsigned char *h, unsigned hl, const unsigned char *p, unsigned pl) {
	unsigned i = 0, j;
	int n = 0;
	if (pl == 0) return 0;
	while (i + pl <= hl) {
		for (j = 0; j < pl && h[i + j] == p[j]; j++) ;
		if (j == pl) { n++; i += pl; } else i++;
	}
	return n;
}

void harness(void) {
	unsigned char h[H + 1], p[P + 1], m[H];
	unsigned hl = vp_range(0, H), pl = vp_range(0, P), i;
	for (i = 0; i < H; i++) { h[i] = vp_u8(); VP_ASSUME(i >= hl || h[i]); }
	for (i = 0; i < P; i++) { p[i] = vp_u8(); VP_ASSUME(i >= pl || p[i]); }
	h[hl] = 0; p[pl] = 0;
#if MODE == 1
	int f = first(h, hl, p, pl);
	VP_ASSERT(str_pos((char *)h, (char *)p) == f, "the position found is the first occurrence, or -1");
	VP_ASSERT(str_has((char *)h, (char *)p) == (f >= 0), "membership agrees with the position");
	VP_ASSERT(str_subcount((char *)h, (char *)p) == count(h, hl, p, pl), "the count is that of non-overlapping occurrences");
	VP_ASSERT(str_pos(NULL, (char *)p) == -1 && str_pos((char *)h, NULL) == -1, "nothing is found in or by NULL");
	if (f > 0) VP_REACH(2);
#else
	/* raw memory: zero bytes are ordinary */
	unsigned ml = vp_range(0, H);
	unsigned char *mm = m + (H - ml);	/* ends where the object ends */
	for (i = 0; i < H; i++) m[i] = vp_u8();
	VP_ASSERT(mempos(mm, ml, p, pl) == first(mm, ml, p, pl), "the position in raw memory is the first occurrence, or -1");
	VP_ASSERT(mem_subcount(mm, ml, (char *)p) == count(mm, ml, p, pl), "the count in raw memory is that of non-overlapping occurrences");
#endif
	VP_REACH(1);
}
