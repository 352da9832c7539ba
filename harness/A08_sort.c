//@ sources: arrays
//@ unwind: 12
//@ quick: timeout=250
//@ thorough: timeout=800
//@ flags: --paths lifo
//@ variants: -DN=1 -DSZ=3; -DN=2 -DSZ=9; -DN=5 -DSZ=3; -DN=8 -DSZ=2 -DBITS=7
//@ thorough-variants: -DN=1 -DSZ=3; -DN=2 -DSZ=9; -DN=5 -DSZ=3; -DN=6 -DSZ=2; -DN=8 -DSZ=2 -DBITS=8; -DN=10 -DSZ=2 -DBITS=8
//@ bounds: every sequence of N elements of SZ bytes with any byte as the key; with BITS (long enough for a second gap), BITS keys of two values before increasing ones
#include "env.h"
#include "arrays.h"
static unsigned char data[SZ * N + 1];
static int calls;
static int byk(const void *a, const void *b, void *arg) {
	VP_ASSERT(arg == (void *)&calls, "the comparison gets its own argument");
	return (int)*(const unsigned char *)a - (int)*(const unsigned char *)b;
}
void harness(void) {
	unsigned char key[N];
	unsigned n = N, i, j;
	int seen[N];
	for (i = 0; i < N; i++) {
		seen[i] = 0;
#ifdef BITS
		key[i] = (unsigned char)(i - 4);
		if (i < BITS) { if (vp_bool()) key[i] = 1; else key[i] = 4; }
#else
		key[i] = vp_u8();
#endif
		data[i * SZ] = key[i];
		for (j = 1; j < SZ; j++) data[i * SZ + j] = (unsigned char)(i * 16 + j);
	}
	data[SZ * N] = 0xAB;
	memsort(data, n, SZ, byk, &calls);
	VP_ASSERT(data[SZ * N] == 0xAB, "nothing beyond the elements is written");
	for (i = 0; i < n; i++) {
		unsigned t = data[i * SZ + 1] / 16;
		VP_ASSERT(t < n && !seen[t], "every element appears once");
		seen[t] = 1;
		VP_ASSERT(data[i * SZ] == key[t], "an element stays whole");
		for (j = 1; j < SZ; j++) VP_ASSERT(data[i * SZ + j] == (unsigned char)(t * 16 + j), "an element stays whole");
		if (i) VP_ASSERT(data[(i - 1) * SZ] <= data[i * SZ], "elements are in order");
	}
	for (i = n; i < N; i++) VP_ASSERT(data[i * SZ] == key[i], "nothing beyond the elements is written");
	VP_REACH(1);
}
