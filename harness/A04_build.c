//@ sources: arrays
//@ unwind: 9
//@ variants: -DMODE=1; -DMODE=2; -DMODE=3; -DMODE=4; -DMODE=5
//@ quick: -DN=4
//@ thorough: -DN=6 unwind=12
//@ bounds: texts of 0..N bytes (two for concatenation, pad texts of 1..2), lengths up to N+3, repeat counts 0..3
#define VP_POOL (3*N+8)
#include "env.h"
static void text(unsigned char *s, unsigned len, unsigned max) {
	unsigned i;
	for (i = 0; i < max; i++) { s[i] = vp_u8(); VP_ASSUME(i >= len || s[i]); }
	s[len] = 0;
}
static int space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
void harness(void) {
	unsigned char s[N + 1], t[N + 1];
	unsigned sl = vp_range(0, N), i;
	text(s, sl, N);
#if MODE == 1
	/* padding */
	unsigned pl = vp_range(1, 2), left = 0, np;
	unsigned char p[3];
	text(p, pl, 2);
	int want = vp_irange(-1, N + 3), kind = vp_range(0, 3), nopad = vp_bool();
	if (nopad) { p[0] = ' '; p[1] = 0; pl = 1; }
	char *r = str_pad((char *)s, want, nopad ? NULL : (char *)p, kind == 0 ? 0 : kind == 1 ? STR_PAD_LEFT : kind == 2 ? STR_PAD_RIGHT : STR_PAD_BOTH);
	VP_ASSERT(r != NULL, "padding gives a text");
	if (want <= (int)sl) {
		for (i = 0; i <= N; i++) if (i <= sl) VP_ASSERT((unsigned char)r[i] == s[i], "a text already long enough is unchanged");
		VP_REACH(1);
		return;
	}
	np = want - sl;
	left = kind == 1 ? np : kind == 3 ? np / 2 : 0;
	for (i = 0; i < N + 3; i++)
		if (i < (unsigned)want) {
			unsigned char e = i < left ? p[i % pl] : i < left + sl ? s[i - left] : p[(i - left - sl) % pl];
			VP_ASSERT((unsigned char)r[i] == e, "padding repeats the pad text on the chosen side around the unchanged text");
		}
	VP_ASSERT(r[want] == 0, "the padded text has the requested length");
	if (kind == 3 && left) VP_REACH(2);
	if (nopad) VP_REACH(3);
#elif MODE == 2
	/* repetition */
	int m = vp_irange(0, 3);
	char *r = str_repeat((char *)s, m);
	VP_ASSERT(r != NULL, "repetition gives a text");
	for (i = 0; i < 3 * N; i++)
		if (i < sl * m) VP_ASSERT((unsigned char)r[i] == s[i % sl], "the repetition is the text over and over");
	VP_ASSERT(r[sl * m] == 0, "the repetition has count times the length");
	VP_REACH(1);
	if (sl == N && m == 3) VP_REACH(2);
#elif MODE == 3
	/* bounded copy, duplication and slices */
	unsigned char d[N + 3], *q;
	unsigned room = vp_range(0, N + 2), n;
	for (i = 0; i < N + 3; i++) d[i] = 'X';
	str_lcpy((char *)d, vp_bool() && sl == 0 ? NULL : (char *)s, room);
	n = room == 0 ? 0 : sl < room - 1 ? sl : room - 1;
	for (i = 0; i < N; i++) if (i < n) VP_ASSERT(d[i] == s[i], "a bounded copy is a prefix");
	if (room) VP_ASSERT(d[n] == 0, "a bounded copy is terminated");
	for (i = 0; i < N + 3; i++) if (i >= room) VP_ASSERT(d[i] == 'X', "a bounded copy stays inside its room");
	q = (unsigned char *)(vp_bool() ? str_dup((char *)s) : str_dup_ex((char *)s));
	VP_ASSERT(q != s, "a duplicate is a fresh text");
	for (i = 0; i <= N; i++) if (i <= sl) VP_ASSERT(q[i] == s[i], "a duplicate equals its source");
	unsigned at = vp_range(0, N), cut = vp_range(0, N);
	VP_ASSUME(at + cut <= sl);
	q = (unsigned char *)str_trim_at((char *)s, at, cut);
	for (i = 0; i < N; i++) if (i < cut) VP_ASSERT(q[i] == s[at + i], "a slice is the bytes asked for");
	VP_ASSERT(q[cut] == 0, "a slice is terminated");
	VP_REACH(1);
	if (n < sl) VP_REACH(2);
#elif MODE == 4
	/* concatenation */
	unsigned tl = vp_range(0, N);
	text(t, tl, N);
	int n = vp_irange(0, 3);
	char *r = str_cat_ex(n, (char *)s, (char *)t, (char *)s);
	if (n == 0) { VP_ASSERT(r == NULL, "nothing concatenated is nothing"); return; }
	unsigned end = n == 1 ? sl : n == 2 ? sl + tl : 2 * sl + tl;
	for (i = 0; i < 3 * N; i++)
		if (i < end) VP_ASSERT((unsigned char)r[i] == (i < sl ? s[i] : i < sl + tl ? t[i - sl] : s[i - sl - tl]), "concatenation is the texts in order");
	VP_ASSERT(r[end] == 0, "concatenation has the total length");
	if (n == 3) VP_REACH(1);
#else
	/* in-place trimming */
	unsigned a = 0, b = sl;
	while (a < sl && space(s[a])) a++;
	while (b > a && space(s[b - 1])) b--;
	for (i = 0; i <= N; i++) t[i] = s[i];
	/* the text begins where its object begins */
	char *r = trim((char *)s);
	VP_ASSERT((unsigned char *)r >= s && (unsigned char *)r <= s + sl, "the trimmed text is part of the text");
	for (i = 0; i < N; i++) if (i < b - a) VP_ASSERT((unsigned char)r[i] == t[a + i], "trimming removes white space at both ends only");
	VP_ASSERT(r[b - a] == 0, "nothing but white space is removed at the end");
	VP_REACH(1);
	if (a && b < sl) VP_REACH(2);
#endif
}
