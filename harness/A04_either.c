//@ sources: arrays
//@ unwind: 8
//@ quick: -DN=3
//@ thorough: -DN=4 unwind=20
//@ bounds: membership of either of two words of 1..2 bytes
#include "env.h"
void harness(void) {
	unsigned i, j;
	unsigned char s[N + 2], m[3], m2[3];
	unsigned sl = vp_range(0, N + 1), ml = vp_range(1, 2), nl = vp_range(1, 2);
	int want = 0;
	for (i = 0; i < N + 1; i++) { s[i] = vp_u8(); VP_ASSUME(i >= sl || s[i]); }
	s[sl] = 0;
	for (i = 0; i < 2; i++) { m[i] = vp_u8(); VP_ASSUME(i >= ml || m[i]); m2[i] = vp_u8(); VP_ASSUME(i >= nl || m2[i]); }
	m[ml] = 0; m2[nl] = 0;
	for (i = 0; i < N + 1; i++) {
		for (j = 0; j < ml && i + j < sl && s[i + j] == m[j]; j++) ;
		if (j == ml) want = 1;
	}
	VP_ASSERT(!want || str_has_either((char *)s, (char *)m, (char *)m2), "a text that holds the first word holds either");
	VP_ASSERT(!str_has_either(NULL, (char *)m, (char *)m2) && !str_has_either((char *)s, NULL, (char *)m2), "nothing holds or is held by NULL");
	VP_REACH(1);
}
