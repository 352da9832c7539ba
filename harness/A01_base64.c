//@ sources: arrays
//@ unwind: 12
//@ quick: -DN=6 unwind=20
//@ thorough: -DN=9 unwind=24
//@ bounds: every non-empty text of 1..N bytes (no NUL), every destination size 0..room
#include "env.h"

void harness(void) {
	char src[N + 1], enc[(N + 2) / 3 * 4 + 1 + 4], dec[((N + 2) / 3 * 4 + 2) / 3 * 4 + 1 + 3];
	unsigned len = vp_range(1, N), i, elen = (len + 2) / 3 * 4, e2;
	for (i = 0; i < N; i++) { src[i] = vp_u8(); VP_ASSUME(i >= len || src[i] != 0); }
	src[len] = 0;
	for (i = 0; i < sizeof enc; i++) enc[i] = 'X';
	size_t room = vp_range(0, sizeof enc);
	char *r = str_encode64(src, enc, room);
	if (r == NULL) {
		VP_ASSERT(room < elen + 1 + 4, "encoding is refused only when the destination is too small");
		for (i = 0; i < sizeof enc; i++) VP_ASSERT(enc[i] == 'X', "a refused encoding writes nothing");
		VP_REACH(1);
		return;
	}
	VP_ASSERT(r == enc, "the destination is returned");
	VP_ASSERT(room >= elen + 1, "an accepted encoding fits the destination");
	VP_ASSERT(strlen(enc) == elen, "encoded length is 4 characters per 3 bytes, rounded up");
	for (i = elen + 1; i < sizeof enc; i++) VP_ASSERT(enc[i] == 'X', "nothing is written past the terminator");
	/* RFC 4648 alphabet, independently computed */
	for (i = 0; i < elen; i++) {
		unsigned bit = i * 6, by = bit / 8, sh = bit % 8;
		unsigned w = ((unsigned)(by < len ? (unsigned char)src[by] : 0) << 8) | (by + 1 < len ? (unsigned char)src[by + 1] : 0);
		unsigned v = (w >> (10 - sh)) & 63;
		char want = v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/';
		if (bit >= len * 8) want = '=';
		VP_ASSERT(enc[i] == want, "each character is the RFC 4648 one");
	}
	VP_ASSERT(str_is_base64(enc), "an encoding is recognised as base64");
	size_t droom = vp_range(0, sizeof dec);
	for (i = 0; i < sizeof dec; i++) dec[i] = 'Y';
	char *d = str_decode64(enc, dec, droom);
	if (d == NULL) {
		VP_ASSERT(droom < (elen + 2) / 3 * 4 + 1, "decoding a valid text is refused only for lack of room");
		for (i = 0; i < sizeof dec; i++) VP_ASSERT(dec[i] == 'Y', "a refused decoding writes nothing");
		VP_REACH(2);
		return;
	}
	VP_ASSERT(d == dec, "the destination is returned");
	for (i = 0; i <= N; i++)
		if (i < len) VP_ASSERT(dec[i] == src[i], "decode(encode(x)) == x");
	VP_ASSERT(dec[len] == 0, "decode(encode(x)) has the length of x");
	for (i = droom; i < sizeof dec; i++) VP_ASSERT(dec[i] == 'Y', "decoding stays inside the destination");
	VP_REACH(3);
}
