//@ sources: arrays
//@ unwind: 7
//@ quick: -DN=4 -DD=2
//@ thorough: -DN=6 -DD=2 unwind=9
//@ bounds: every text of 1..N bytes, every delimiter of 1..D bytes or NULL; raw-memory split with embedded NULs
//@ variants: -DMODE=1; -DMODE=2; -DMODE=3
#define VP_CPUS 2
#define VP_POOL ((N+2)*8+N+2)
#include "env.h"
/* The code compares bytes for equality and copies them, nothing else: two letters that can make
 * up a delimiter and two that cannot stand for the rest. */
#define LETTER(c) ((c) == ',' || (c) == ';' || (c) == 'a' || (c) == 0xE9)
/* greedy left-to-right split: the reference */
static unsigned st[N + 2], ln[N + 2], cnt;
static void refsplit(const unsigned char *s, unsigned sl, const unsigned char *d, unsigned dl) {
	unsigned i = 0, j, b = 0;
	cnt = 0;
	while (i < sl) {
		for (j = 0; j < dl && i + j < sl && s[i + j] == d[j]; j++) ;
		if (j == dl) { st[cnt] = b; ln[cnt++] = i - b; i += dl; b = i; }
		else i++;
	}
	st[cnt] = b; ln[cnt++] = sl - b;
}
void harness(void) {
	unsigned char s[N + 1], d[D + 1], keep[N + 1];
	unsigned sl = vp_range(1, N), dl = vp_range(1, D), i, k;
	int usenull = vp_bool(), n = -1;
	for (i = 0; i < N; i++) { s[i] = vp_u8(); VP_ASSUME(LETTER(s[i]) || (MODE == 2 && !s[i]) || (i >= sl && !s[i])); }
	for (i = 0; i < D; i++) { d[i] = vp_u8(); VP_ASSUME(i >= dl || LETTER(d[i])); }
	s[sl] = 0; d[dl] = 0;
	memcpy(keep, s, N + 1);
	if (usenull) { d[0] = ' '; d[1] = 0; dl = 1; }
	refsplit(s, sl, d, dl);
#if MODE == 3
	array_t a = str_explode((char *)s, usenull ? NULL : (char *)d);
	VP_ASSERT(a != NULL, "a non-empty text can be split");
	if (cnt == 1) {
		VP_ASSERT($size(a) == 0, "without a delimiter in the text there are no pieces to list");
		VP_REACH(1);
		return;
	}
	VP_ASSERT($size(a) == cnt, "one piece more than delimiters");
	for (k = 0; k < cnt; k++) {
		char *w = a[k].char_ptr;
#else
# if MODE == 1
	char **w_ = str_split_ex((char *)s, usenull ? NULL : (char *)d, &n);
# else
	char **w_ = (char **)mem_split_ex(s, sl, usenull ? NULL : (char *)d, &n);
# endif
	VP_ASSERT(w_ != NULL, "a non-empty text can be split");
	VP_ASSERT(n == (int)cnt, "one piece more than delimiters");
	VP_ASSERT(w_[cnt] == NULL, "the list of pieces ends with NULL");
	for (k = 0; k < cnt; k++) {
		char *w = w_[k];
#endif
		for (i = 0; i <= N; i++)
			if (i < ln[k]) VP_ASSERT((unsigned char)w[i] == keep[st[k] + i], "each piece is the text between two delimiters");
		VP_ASSERT(w[ln[k]] == 0, "each piece is terminated");
	}
	for (i = 0; i <= N; i++) VP_ASSERT(s[i] == keep[i], "the source text is not modified");
	VP_REACH(1);
	if (cnt > 2) VP_REACH(2);
}
