//@ includes: arrays
//@ unwind: 6
//@ unwindset: events_realloc:40 vpa_junk:40
//@ quick: timeout=250
//@ thorough: timeout=250
//@ bounds: arrays made from 0..5 values; one element of each kind (but the promoted ones, char, short and bool) of each possible value; refusal to change a tuple
#include "arrmem.h"
void *vp_value(void) { return (void *)vp_u64(); }
static values_t *mk(int n, void **m) {
	switch (n) {
	case 0: return arrays(0);
	case 1: return arrays(1, m[0]);
	case 2: return arrays(2, m[0], m[1]);
	case 3: return arrays(3, m[0], m[1], m[2]);
	case 4: return arrays(4, m[0], m[1], m[2], m[3]);
	}
	return arrays(5, m[0], m[1], m[2], m[3], m[4]);
}
void harness(void) {
	int i, n;
	void *m[5];
	array_t a, t;
	char *text = (char *)vp_value();
	unsigned long u = vp_u64(); long s = vp_i64(); double d = (double)vp_i32();
	for (i = 0; i < 5; i++) m[i] = vp_value();
	n = vp_range(0, 5); {
		a = mk(n, m);
		VP_ASSERT($size(a) == n && $capacity(a) >= n, "arrays() holds its arguments");
		for (i = 0; i < n; i++) VP_ASSERT(a[i].object == m[i], "arrays() keeps the order");
	}
	a = array();
	$append_unsigned(a, u); $append_signed(a, s); $append_double(a, d); $append_string(a, text); $append_func(a, vp_value);
	VP_ASSERT($size(a) == 5, "each appended value is one element");
	VP_ASSERT(a[0].max_size == u && a[1].long_long == s && a[2].precision == d && a[3].char_ptr == text && a[4].func == (data_func_t)vp_value,
		"elements of every kind keep their value");
	t = $tuple(a);
	VP_ASSERT($size(t) == 5, "a tuple keeps its elements");
	VP_REACH(1);
	vp_may_throw = 1;
	switch (vp_range(0, 5)) {
	case 0: $append(t, 1); break;
	case 1: $append_signed(t, 1); break;
	case 2: $remove(t, 0); break;
	case 3: $pop(t); break;
	case 4: $shift(t); break;
	case 5: $reset(t);
	}
	VP_ASSERT(0, "a tuple refuses every change");
}
