//@ sources: events
//@ env: gettimeofday time
//@ stub: events_poll_once_internal
//@ cut: guard_set wait_cb
//@ unwind: 5
//@ quick: timeout=250
//@ thorough: timeout=800
//@ variants: -DACT=0 -DNA=3 -DRUNS=3 ; -DACT=1 -DNA=2 -DRUNS=3 ; -DACT=2 -DNA=2 -DRUNS=3
//@ bounds: NA actors with delays of 0, 500, 2148 or 5000 ms, RUNS loop runs with the clock moving by up to 8 s in 16ths of a second between them; ACT 1: a callback may ask to be repeated, ACT 2: it may start another actor
#include "events_internal.h"
#include <stdlib.h>
#include "vp.h"
#ifndef VP_CBMC
#define gettimeofday vpenv_gettimeofday
#define time vpenv_time
#endif
#define NMAX 4
static events_t L;
static actor_t p0, p1, p2, p3;
static actor_t *const pool[NMAX] = { &p0, &p1, &p2, &p3 };
static int npool, arg[NMAX], live[NMAX], released[NMAX], times[NMAX], nlive, nrun;
static uint64_t due[NMAX], sec = 100, usec;
static void *pm(size_t n) { VP_ASSERT(0, "an actor is cleared memory"); return 0; }
static void *pc(size_t c, size_t n) {
	VP_ASSERT(c * n == sizeof(actor_t) && npool < NMAX, "an actor is one block");
	switch (npool++) { case 0: return &p0; case 1: return &p1; case 2: return &p2; }
	return &p3;
}
static void *pr(void *p, size_t n) { return p; }
static void pf(void *p) {
	int i, k = -1;
	for (i = 0; i < NMAX; i++) if (p == pool[i]) k = i;
	VP_ASSERT(k >= 0 && !released[k], "an actor is released once");
	VP_ASSERT(!live[k], "an actor still due is kept");
	released[k] = 1;
}
static uint64_t ns(void) { return sec * 1000000000 + usec * 1000; }
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = sec; tv->tv_usec = usec; return 0; }
time_t time(time_t *t) { return 1000; }
int events_poll_once_internal(events_t *l, int w) { return 0; }
static int delay_of(void) {
	/* constants in each branch */
	switch (vp_range(0, 3)) {
	case 0: return 0; case 1: return 500; case 2: return 2148;
	}
	return 5000;
}
static void cb(actor_t *t, void *a);
static void start(void) {
	int k = npool, ms = delay_of();
	actor_t *t;
	due[k] = ns() + (uint64_t)ms * 1000000;
	live[k] = 1; nlive++;
	t = events_actor(&L, ms, cb, &arg[k]);
	VP_ASSERT(t == pool[k] && events_actor_loop(t) == &L, "an actor knows its loop");
}
static void cb(actor_t *t, void *a) {
	int i, k = -1;
	for (i = 0; i < NMAX; i++) if (a == &arg[i]) k = i;
	VP_ASSERT(k >= 0 && t == pool[k], "an actor is called with itself and its own argument");
	VP_ASSERT(live[k] && !released[k], "an actor is called once for each time it was due");
	VP_ASSERT(ns() >= due[k], "no actor is called early");
	for (i = 0; i < NMAX; i++)
		VP_ASSERT(!live[i] || due[i] >= due[k], "the actor due first is called first");
	live[k] = 0; nlive--; nrun++; times[k]++;
#if ACT == 1
	if (vp_bool()) {
		int ms = delay_of();
		live[k] = 1; nlive++;
		due[k] = ns() + (uint64_t)ms * 1000000;
		VP_ASSERT(events_repeat_actor(t, ms) == t, "a repeated actor stays the same");
	} else if (vp_bool()) events_clear_actor(t);
#elif ACT == 2
	if (npool < NMAX && vp_bool()) start();
#endif
}
void harness(void) {
	int i, k, n, ready;
	events_set_allocator(pm, pr, pc, pf);
	/* no descriptors, no timeouts */
	sys_event.timeout_vec_of_vec_size = 0;
	L.timeout.base_time = 2000; L.timeout.resolution = 1;
	for (i = 0; i < NA; i++) start();
	for (i = 0; i < RUNS; i++) {
		uint64_t was = ns();
		sec += vp_range(0, 7); usec = vp_range(0, 15) * 62500;
		VP_ASSUME(ns() >= was);
		for (k = ready = 0; k < NMAX; k++) if (live[k] && due[k] <= ns()) ready = 1;
		nrun = 0;
		n = events_once(&L, 0);
		VP_ASSERT(nrun == ready, "a run of the loop calls one due actor, if there is one");
		VP_ASSERT(n == nlive, "the loop stays active exactly as long as actors are due");
		for (k = 0; k < npool; k++)
			VP_ASSERT(released[k] == !live[k], "an actor is released once it is no longer due");
	}
	if (times[0] == 1 && times[1] == 1) VP_REACH(1);
	if (nlive == 0) VP_REACH(2);
}
