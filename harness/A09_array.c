//@ includes: arrays
//@ unwind: 12
//@ unwindset: events_realloc:40 vpa_junk:40
//@ quick: timeout=250
//@ thorough: timeout=800
//@ variants: -DPRE=0 -DOPS=3 ; -DPRE=3 -DOPS=2 ; -DPRE=4 -DOPS=2 ; -DPRE=7 -DOPS=1
//@ thorough-variants: -DPRE=0 -DOPS=4 ; -DPRE=3 -DOPS=3 ; -DPRE=4 -DOPS=3 ; -DPRE=7 -DOPS=2 ; -DPRE=8 -DOPS=2
//@ bounds: PRE elements, then OPS operations out of append, remove any index, pop, shift, reset, reserve, on arrays of first capacity 4 (a machine of one processor), any element values
#define CAP 12
#define VPA_CAP 24
#define VPA_INPLACE
#include "arrmem.h"
static void *m[CAP];
static unsigned n;
static void same(array_t a) {
	unsigned i;
	VP_ASSERT($size(a) == n, "the size is the number of elements");
	VP_ASSERT($capacity(a) >= n && vpa_asked >= sizeof(array_metadata_t) + $capacity(a) * sizeof(*a), "the storage is large enough for its capacity");
	for (i = 0; i < PRE + OPS; i++) if (i < n) VP_ASSERT(a[i].object == m[i], "elements keep their value and order");
}
void harness(void) {
	unsigned i, j, k, at, back;
	array_t a, b;
	values_t v;
	vp_may_throw = 0;
	a = array();
	VP_ASSERT(is_data(a) && $size(a) == 0, "a new array is empty");
	for (i = 0; i < PRE; i++) { m[n] = (void *)vp_u64(); $append(a, m[n]); n++; }
	same(a);
	for (k = 0; k < OPS; k++) {
		switch (vp_range(0, 5)) {
		case 0: m[n] = (void *)vp_u64(); $append(a, m[n]); n++; break;
		case 1:
			at = vp_range(0, PRE + OPS);
			$remove(a, at);
			if (at < n) { for (i = at; i + 1 < PRE + OPS; i++) m[i] = m[i + 1]; n--; }
			break;
		case 2:
			v = $pop(a);
			VP_ASSERT(v.object == (n ? m[n - 1] : 0), "pop gives the last element");
			if (n) n--;
			break;
		case 3:
			v = $shift(a);
			VP_ASSERT(v.object == (n ? m[0] : 0), "shift gives the first element");
			if (n) { for (i = 0; i + 1 < PRE + OPS; i++) m[i] = m[i + 1]; n--; }
			break;
		case 4: VP_ASSERT($reset(a) == a, "reset stays in place"); n = 0; break;
		case 5:
			at = vp_range(0, 1) ? 3 : 11;
			$reserve(a, at);
			VP_ASSERT($capacity(a) >= at, "reserved storage is there");
		}
	}
	same(a);
	if (n == PRE + OPS) VP_REACH(1);
	if (n == 0) VP_REACH(2);
}
