//@ sources: events
//@ env: time rand
//@ stub: events_update_internal
//@ cut: guard_set wait_cb
//@ unwind: 4
//@ shrink: EVENTS_TIMEOUT_VEC_SIZE=8
//@ quick: timeout=500
//@ thorough: timeout=800
//@ variants: -DR=1 -DBASE=6 -DTICKS=2 -DLAG=0 -DADV=2,2 -DACT=1 ; -DR=2 -DBASE=0 -DTICKS=2 -DLAG=1 -DADV=2,3 -DACT=1 ; -DR=1 -DBASE=6 -DTICKS=2 -DLAG=0 -DADV=2,2 -DACT=2 ; -DR=2 -DBASE=0 -DTICKS=2 -DLAG=1 -DADV=2,3 -DACT=2 ; -DR=1 -DBASE=6 -DTICKS=2 -DLAG=0 -DADV=2,2 -DACT=3 ; -DR=2 -DBASE=0 -DTICKS=2 -DLAG=1 -DADV=2,3 -DACT=3 ; -DR=1 -DBASE=6 -DTICKS=2 -DLAG=0 -DADV=2,2 -DACT=4 ; -DR=2 -DBASE=0 -DTICKS=2 -DLAG=1 -DADV=2,3 -DACT=4 ; -DFB=1 -DR=1 -DBASE=6 -DTICKS=2 -DLAG=0 -DADV=2,2 -DACT=2 ; -DFB=1 -DR=1 -DBASE=6 -DTICKS=2 -DLAG=0 -DADV=2,2 -DACT=3
//@ vacuity: first
//@ bounds: two descriptors, in one 16-descriptor group, in different groups; OPS operations, each arming (0..3 s), cancelling, deleting or letting 0..3 s pass; every callback may re-arm itself, cancel, re-time or delete the other
#include "events_internal.h"
#include <stdlib.h>
#include "vp.h"
#define FA 0
#ifndef FB
#define FB 16
#endif
#define NFD (FB + 1)
#define NV ((NFD + 15) / 16)
#define NVV ((NV + 15) / 16)
static events_t L;
static events_fd_t fds[NFD];
static short mem[(NV + NVV) * EVENTS_TIMEOUT_VEC_SIZE];
static int armed[2], fired[2], gone[2];
static long due[2];
static const int adv[] = { ADV };
time_t vpenv_time(time_t *t) { return L.now; }
int vpenv_rand(void) { return 0; }
#ifdef VP_CBMC
time_t time(time_t *t) { return L.now; }
int rand(void) { return 0; }
#endif
int events_update_internal(events_t *loop, int fd, int event) {
	fds[fd].events = event & EVENTS_READWRITE;
	return 0;
}
static int fd_of(int w) { return w ? FB : FA; }
/* the descriptor number stays a constant in each branch */
static void arm(int w, int s) {
	if (gone[w]) return;
	if (w) events_set_timeout(FB, s); else events_set_timeout(FA, s);
	armed[w] = s != 0;
	due[w] = L.now + s;
}
static void del(int w) {
	if (gone[w]) return;
	if (w) events_del(FB); else events_del(FA);
	gone[w] = 1; armed[w] = 0;
}
static void cb(fds_t fd, int ev, void *arg) {
	int w = fd == FB;
	VP_ASSERT(fd == fd_of(w) && arg == &fds[fd], "a timeout is reported for the descriptor that asked for it");
	VP_ASSERT(ev == EVENTS_TIMEOUT, "a timeout is reported as a timeout");
	VP_ASSERT(!gone[w], "a removed descriptor reports nothing");
	VP_ASSERT(armed[w], "a cancelled or already reported timeout is not reported");
	VP_ASSERT(L.now >= due[w], "no timeout is reported early");
	armed[w] = 0;
	fired[w]++;
#if ACT == 1
	if (vp_bool()) arm(w, vp_range(1, 2));
#elif ACT == 2
	if (vp_bool()) arm(!w, 0);
#elif ACT == 3
	if (vp_bool()) arm(!w, 2);
#elif ACT == 4
	if (vp_bool()) del(!w);
#endif
}
void harness(void) {
	int i, w;
	sys_event.max_fd = NFD; sys_event.timeout_vec_size = NV; sys_event.timeout_vec_of_vec_size = NVV;
	atomic_init(&sys_event.fds, fds);
	atomic_init(&sys_event.num_loops, 1);
	L.loop_id = 1;
	L.timeout.vec_of_vec = mem; L.timeout.vec = mem + NVV * EVENTS_TIMEOUT_VEC_SIZE;
	L.timeout.base_idx = BASE; L.timeout.resolution = R;
	L.now = 1000;
	L.timeout.base_time = 1000 - LAG;
	for (w = 0; w < 2; w++) {
		VP_ASSERT(events_add(&L, fd_of(w), EVENTS_READ, 0, cb, &fds[fd_of(w)]) == 0, "a descriptor is accepted");
		arm(w, vp_range(0, 3));
	}
	for (i = 0; i < TICKS; i++) {
		w = vp_bool();
		switch (vp_range(0, 2)) {
		case 0: arm(w, vp_range(0, 3)); break;
		case 1: del(w); break;
		case 2: break;
		}
		/* how far the clock moves between two runs of the loop is fixed per variant */
		L.now += adv[i];
		events_handle_timeout_internal(&L);
		for (w = 0; w < 2; w++)
			VP_ASSERT(!armed[w] || L.now < due[w] + R, "a due timeout is reported as soon as the loop runs");
	}
	if (fired[0] && armed[0]) VP_REACH(1);
	if (fired[1] && gone[0]) VP_REACH(2);
}
