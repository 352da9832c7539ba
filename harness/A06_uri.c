//@ sources: arrays
//@ unwind: 26
//@ vacuity: first
//@ quick: timeout=200
//@ thorough: timeout=600
//@ variants: -DU=1 -DW=0 -DO=0 -DA=2 -DQ=0 -DF=0; -DU=1 -DW=1 -DO=3 -DA=2 -DQ=1 -DF=1; -DU=2 -DW=0 -DO=0 -DA=3 -DQ=0 -DF=2; -DU=1 -DW=1 -DO=4 -DA=2 -DQ=1 -DF=1 -DEX; -DU=0 -DW=0 -DO=5 -DA=1 -DQ=0 -DF=0 -DEX
//@ thorough-variants: -DU=1 -DW=0 -DO=0 -DA=2 -DQ=0 -DF=0; -DU=0 -DW=0 -DO=0 -DA=0 -DQ=0 -DF=0; -DU=1 -DW=1 -DO=3 -DA=2 -DQ=1 -DF=1; -DU=1 -DW=2 -DO=5 -DA=1 -DQ=2 -DF=0; -DU=0 -DW=0 -DO=2 -DA=0 -DQ=2 -DF=2; -DU=2 -DW=0 -DO=0 -DA=3 -DQ=0 -DF=2; -DU=0 -DW=0 -DO=5 -DA=1 -DQ=0 -DF=0 -DEX; -DU=1 -DW=1 -DO=4 -DA=2 -DQ=1 -DF=1 -DEX
//@ bounds: scheme://[user[:pass]@]host[:port][/path][?query][#fragment] with a scheme of 1-3 letters, host x.y, every presence pattern listed by the variants, every byte allowed in each component, every port of the given number of digits
#define VP_OWN_ALLOC
#define VP_OWN_DEFER
#define VP_DEFERS
#include "env.h"
/* one block per allocation, counted */
int live, autofreed;
void *events_calloc(size_t c, size_t n) { live++; return calloc(c, n); }
void *events_malloc(size_t n) { live++; return malloc(n); }
void *events_realloc(void *p, size_t n) { return realloc(p, n); }
void events_free(void *p) { live--; free(p); }
bool defer_free(void *p) { autofreed++; return p != 0; }
int deferred(func_t fn, void *p, bool is_ptr) { return 1; }
static char hn[] = "localhost";
const char *events_hostname(void) { return hn; }

static unsigned char s[40];
static unsigned at;
static unsigned char *put(unsigned n, int kind) {
	unsigned char *b = s + at, c;
	unsigned i;
	for (i = 0; i < n; i++) {
		c = vp_u8();
		VP_ASSUME(c != 0);
		if (kind == 0) VP_ASSUME((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'));
		if (kind == 1) VP_ASSUME(c >= '0' && c <= '9');
		/* user, password, host: anything that is not a delimiter of the authority part */
		if (kind == 2) VP_ASSUME(c != '/' && c != '?' && c != '#' && c != '@' && c != ':' && c != '[' && c != ']' && c != '.');
		if (kind == 3) VP_ASSUME(c != '?' && c != '#');
		if (kind == 4) VP_ASSUME(c != '#');
		s[at++] = c;
	}
	return b;
}
static void lit(const char *t) { while (*t) s[at++] = *t++; }
static int same(const char *got, const unsigned char *want, unsigned n) {
	unsigned i;
	if (!got) return 0;
	for (i = 0; i < n; i++) {
		unsigned char c = want[i];
		if (c < 32 || c == 127) c = '_';	/* control characters are neutralised */
		if ((unsigned char)got[i] != c) return 0;
	}
	return got[n] == 0;
}
void harness(void) {
	unsigned char *sc, *us = 0, *pw = 0, *ho, *po = 0, *pa, *qu = 0, *fr = 0;
	unsigned long port = 0;
	unsigned i, scl = 3;
	sc = put(scl, 0);
	VP_ASSUME(!((sc[0] | 32) == 'f' && (sc[1] | 32) == 'i'));
	lit("://");
	if (U) { us = put(U, 2); if (W) { lit(":"); pw = put(W, 2); } lit("@"); }
	ho = s + at; put(1, 2); lit("."); put(1, 2);
	if (O) { lit(":"); po = put(O, 1); for (i = 0; i < O; i++) port = port * 10 + (po[i] - '0'); }
	pa = s + at;
	if (A) { lit("/"); put(A - 1, 3); }
	if (Q) { lit("?"); qu = put(Q, 4); }
	if (F) { lit("#"); fr = put(F, 5); }
	s[at] = 0;
#ifdef EX
	uri_t *u = parse_uri_ex((char *)s);
#else
	uri_t *u = parse_uri((char *)s);
#endif
	if (port > 65535) {
		VP_ASSERT(u == NULL, "a port above 65535 is rejected");
#ifdef EX
		VP_ASSERT(live == 0, "a rejected text leaves nothing allocated");
#endif
		return;
	}
	VP_ASSERT(u != NULL, "a well-formed text is accepted");
	VP_ASSERT(same(u->scheme, sc, scl), "the scheme is the one written");
	VP_ASSERT(same(u->host, ho, 3), "the host is the one written");
	VP_ASSERT(U ? same(u->user, us, U) : u->user == NULL, "the user is the one written");
	VP_ASSERT(U && W ? same(u->pass, pw, W) : u->pass == NULL, "the password is the one written");
	VP_ASSERT(u->port == port, "the port is the one written");
	VP_ASSERT(A ? same(u->path, pa, A) : u->path == NULL || u->path[0] == 0, "the path is the one written");
	VP_ASSERT(Q ? same(u->query, qu, Q) : u->query == NULL, "the query is the one written");
	VP_ASSERT(F ? same(u->fragment, fr, F) : u->fragment == NULL, "the fragment is the one written");
#ifdef EX
	uri_free(u);
	VP_ASSERT(live == 0, "releasing a parsed text releases every component");
#else
	VP_ASSERT(live == autofreed, "every component is released with the scope");
#endif
	VP_REACH(1);
}
