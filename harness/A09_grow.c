//@ includes: arrays
//@ unwind: 13
//@ unwindset: events_realloc:40 vpa_junk:40
//@ quick: timeout=250
//@ thorough: timeout=800
//@ variants: -DPRE=0 ; -DPRE=1 ; -DPRE=4 ; -DPRE=5 ; -DPRE=9
//@ bounds: PRE elements appended with or without storage reserved, through every append, into storage that moves whenever it grows (first capacity 4), any values; then, with distinct addresses and one NULL, iterated, copied, and the copy appended to
#define CAP 24
#define VPA_CAP 24
#define OPS 3
#include "arrmem.h"
static void *m[CAP];
static unsigned n;
static void same(array_t a) {
	unsigned i;
	VP_ASSERT($size(a) == n, "the size is the number of elements");
	VP_ASSERT($capacity(a) >= n && vpa_asked >= sizeof(array_metadata_t) + $capacity(a) * sizeof(*a), "the storage is large enough for its capacity");
	for (i = 0; i < PRE + OPS; i++) if (i < n) VP_ASSERT(a[i].object == m[i], "elements keep their value and order");
}
static int tag[16];
static void run(int reserve, unsigned any) {
	unsigned i, back;
	array_t a, b;
	n = 0;
	a = array();
	VP_ASSERT(is_data(a) && $size(a) == 0, "a new array is empty");
	if (reserve) { $reserve(a, reserve); VP_ASSERT($capacity(a) >= reserve && $size(a) == 0, "reserved storage is there"); }
	for (i = 0; i < PRE; i++) {
		m[n] = (void *)vp_u64();
		if (i % 2) $append_unsigned(a, m[n]); else $append(a, m[n]);
		n++;
	}
	same(a);
	if (reserve) { $reserve(a, 12); same(a); }
	/* from here with distinct addresses and one NULL */
	for (i = 0; i < PRE; i++) { m[i] = i == any ? NULL : (void *)&tag[i]; a[i].object = m[i]; }
	back = i = 0;
	foreach(x in a) { VP_ASSERT(ix == (int)i && x.object == m[i], "foreach visits in order"); i++; }
	VP_ASSERT(i == n, "foreach visits all");
	foreach_back(y in a) { back++; VP_ASSERT(iy == (int)(n - back) && y.object == m[n - back], "foreach_back visits in reverse"); }
	VP_ASSERT(back == n, "foreach_back visits all");
	b = NULL;
	b = $copy(b, a);
	VP_ASSERT(b != a && is_data(b), "a copy is another array");
	same(b);
	$append(b, 7); m[n++] = (void *)7;
	same(b);
	VP_ASSERT($size(a) == n - 1, "a copy is independent");
	VP_ASSERT($tuple(a) == (tuple_t)a && is_data(a), "a tuple keeps its place");
	$delete(b); $delete(a);
	VP_ASSERT(vpa_live == 0, "deleting releases the storage");
}
void harness(void) {
	vp_may_throw = 0;
	run(0, PRE - 1);
	vpa_used = 0;
	run(2, 0);
	vpa_used = 0;
	run(9, PRE / 2);
	VP_REACH(1);
}
