//@ sources: arrays
//@ unwind: 9
//@ quick: -DN=4 unwind=7 timeout=200
//@ thorough: -DN=5 timeout=800 unwind=8
//@ variants: -DMODE=1; -DMODE=2
//@ bounds: every text of 0..N bytes
#define VP_OWN_ALLOC
#define VP_OWN_DEFER
#include "env.h"
int live;
/* every block is right-aligned in an object of its own */
#define POOL (sizeof(uri_t) > N + 3 ? sizeof(uri_t) : N + 3)
static unsigned char *base[9];
void *events_calloc(size_t c, size_t n) {
	live++;
	if (c * n == sizeof(uri_t)) return calloc(1, sizeof(uri_t));
	VP_ASSERT(c * n <= N + 3, "components are no longer than the text");
	return (char *)calloc(1, N + 3) + (N + 3 - c * n);
}
void *events_malloc(size_t n) { return malloc(n); }
void *events_realloc(void *p, size_t n) { return realloc(p, n); }
void events_free(void *p) { live--; }
int autofreed;
bool defer_free(void *p) { autofreed++; return p != 0; }
int deferred(func_t fn, void *p, bool is_ptr) { return 1; }
static char hn[] = "h";
const char *events_hostname(void) { return hn; }
void harness(void) {
	unsigned char buf[N + 2], *s;
	unsigned l = vp_range(0, N), i;
	s = buf + 1 + (N - l);	/* ends where the object ends; a pointer one before it still compares */
	for (i = 0; i < N; i++) if (i < l) { s[i] = vp_u8(); VP_ASSUME(s[i]); }
	s[l] = 0;
#if MODE == 1
	uri_t *u = parse_uri_ex((char *)s);
	if (!u) { VP_ASSERT(live == 0, "a rejected text leaves nothing allocated"); VP_REACH(1); return; }
#else
	uri_t *u = parse_uri((char *)s);
	VP_ASSERT(live == autofreed, "everything allocated is released with the scope");
	if (!u) { VP_REACH(1); return; }
#endif
	VP_ASSERT(u->host != NULL && u->host[0], "an accepted text has a host");
	for (i = 0; u->host[i] && u->host[i] != '.'; i++) ;
	VP_ASSERT(u->host[i] == '.' || (u->host[0] == 'h' && !u->host[1]), "an accepted host is qualified or this host");
#if MODE == 1
	uri_free(u);
	VP_ASSERT(live == 0, "releasing a parsed text releases every component");
#endif
	VP_REACH(2);
}
