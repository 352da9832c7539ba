/* Native side of vp.h: reads the counterexample values, reports what happened.
 * exit 0 ran to the end, 10 property assertion failed, 77 an assumption failed / values ran out. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vp.h"

static unsigned long *vals;
static size_t nvals, pos;
static int reached;
static size_t over;

static unsigned long next(void) {
	if (pos < nvals) return vals[pos++];
	/* values the solver left free */
	if (++over > 100000) { fprintf(stderr, "REPLAY: values ran out\n"); _exit(77); }
	return 0;
}
unsigned char  vp_u8(void)  { return (unsigned char)next(); }
unsigned short vp_u16(void) { return (unsigned short)next(); }
unsigned int   vp_u32(void) { return (unsigned int)next(); }
unsigned long  vp_u64(void) { return next(); }
void vp_assume_(int c, const char *t) {
	if (!c) { fprintf(stderr, "REPLAY: assumption not met: %s\n", t); _exit(77); }
}
void vp_assert_(int c, const char *t, const char *f, int l) {
	if (!c) { fprintf(stderr, "REPLAY: PROPERTY FAILS: %s (%s:%d)\n", t, f, l); _exit(10); }
}
void vp_reach_(int n) { reached++; fprintf(stderr, "REPLAY: reached %d\n", n); }
#ifdef VP_GLOBALS_RANDOM
#endif
void harness(void);
int main(int argc, char **argv) {
	FILE *f = argc > 1 ? fopen(argv[1], "r") : 0;
	unsigned long v;
	char line[256];
	size_t cap = 0;
	if (f) {
		while (fgets(line, sizeof line, f)) {
			if (line[0] == '#' || sscanf(line, "%lu", &v) != 1) continue;
			if (nvals == cap) vals = realloc(vals, (cap = cap ? cap * 2 : 64) * sizeof *vals);
			vals[nvals++] = v;
		}
		fclose(f);
	}
	harness();
	fprintf(stderr, "REPLAY: finished, reached=%d\n", reached);
	fflush(stderr);
	_exit(0);
}
