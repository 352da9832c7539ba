//@ includes: arrays
//@ unwind: 10
//@ quick: timeout=250
//@ thorough: timeout=600
//@ variants: -DKIND=0 ; -DKIND=1 ; -DKIND=2
//@ bounds: ranges of at most 7 numbers between any two ints (also with the end below the start), steps of any positive size, texts of up to 7 bytes
#define VPA_CAP 17
#define VPA_INPLACE
#include "arrmem.h"
void harness(void) {
	int lo = vp_i32(), hi = vp_i32(), step = vp_i32(), i;
	long long n, at;
	range_t r;
#if KIND == 0
	VP_ASSUME((long long)hi - lo <= 7);
	n = hi > lo ? (long long)hi - lo : 0;
	r = range(lo, hi);
	step = 1;
#elif KIND == 1
	VP_ASSUME(step > 0);
	for (n = 0, at = lo; n < 7 && at < hi; n++) at += step;
	VP_ASSUME(at >= hi);
	r = rangeing(lo, hi, step);
#else
	char s[8];
	n = vp_range(0, 7);
	for (i = 0; i < 7; i++) { s[i] = (char)vp_u8(); VP_ASSUME(i >= n || s[i]); }
	s[n] = 0;
	r = range_char(s);
#endif
	VP_ASSERT(is_data(r) && $size(r) == n, "a range has as many elements as its definition");
	VP_ASSERT($capacity(r) >= n, "a range fits its storage");
	for (i = 0, at = lo; i < 7; i++, at += step) if (i < n)
#if KIND == 2
		VP_ASSERT(r[i].schar == s[i], "a range of characters is the text's bytes");
#else
		VP_ASSERT(r[i].long_long == at, "a range counts up from its start");
#endif
	if (n == 7) VP_REACH(1);
	if (n == 0) VP_REACH(2);
}
