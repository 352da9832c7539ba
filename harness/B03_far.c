//@ sources: events
//@ env: time rand
//@ stub: events_update_internal
//@ cut: guard_set wait_cb
//@ unwind: 5
//@ shrink: EVENTS_TIMEOUT_VEC_SIZE=4
//@ quick: timeout=250
//@ thorough: timeout=800
//@ variants: -DFB=256
//@ bounds: three descriptors, two of them far beyond the first block of 256; each is armed for 1 or 2 s, cancelled or left alone, then the loop runs every second
#include "events_internal.h"
#include <stdlib.h>
#include "vp.h"
#define FA 0
#define FC (FB + 1)
#define NFD (FB + 2)
#define NV ((NFD + 15) / 16)
#define NVV ((NV + 15) / 16)
static events_t L;
static events_fd_t fds[NFD];
static short mem[(NV + NVV) * EVENTS_TIMEOUT_VEC_SIZE];
static int armed[3], fired[3];
static long due[3];
time_t vpenv_time(time_t *t) { return L.now; }
int vpenv_rand(void) { return 0; }
#ifdef VP_CBMC
time_t time(time_t *t) { return L.now; }
int rand(void) { return 0; }
#endif
int events_update_internal(events_t *loop, int fd, int event) {
	fds[fd].events = event & EVENTS_READWRITE;
	return 0;
}
static void cb(fds_t fd, int ev, void *arg) {
	int w = fd == FA ? 0 : fd == FB ? 1 : 2;
	VP_ASSERT((w < 2 || fd == FC) && arg == &armed[w], "a timeout is reported for the descriptor that asked for it");
	VP_ASSERT(armed[w] && ev == EVENTS_TIMEOUT, "a cancelled or already reported timeout is not reported");
	VP_ASSERT(L.now >= due[w], "no timeout is reported early");
	armed[w] = 0;
	fired[w]++;
}
#define ARM(w, fd) do { \
	VP_ASSERT(events_add(&L, fd, EVENTS_READ, 0, cb, &armed[w]) == 0, "a descriptor is accepted"); \
	if (vp_bool()) { events_set_timeout(fd, 1); armed[w] = 1; due[w] = L.now + 1; } \
	else if (vp_bool()) { events_set_timeout(fd, 2); armed[w] = 1; due[w] = L.now + 2; } \
	if (armed[w] && vp_bool()) { events_set_timeout(fd, 0); armed[w] = 0; } \
	} while (0)
void harness(void) {
	int i, w;
	sys_event.max_fd = NFD; sys_event.timeout_vec_size = NV; sys_event.timeout_vec_of_vec_size = NVV;
	atomic_init(&sys_event.fds, fds);
	atomic_init(&sys_event.num_loops, 1);
	L.loop_id = 1;
	L.timeout.vec_of_vec = mem; L.timeout.vec = mem + NVV * EVENTS_TIMEOUT_VEC_SIZE;
	L.timeout.base_idx = 3; L.timeout.resolution = 1;
	L.now = 1000;
	L.timeout.base_time = 1000;
	ARM(0, FA); ARM(1, FB); ARM(2, FC);
	for (i = 0; i < 3; i++) {
		L.now++;
		events_handle_timeout_internal(&L);
		for (w = 0; w < 3; w++)
			VP_ASSERT(!armed[w] || L.now < due[w] + 1, "a due timeout is reported as soon as the loop runs");
	}
	if (fired[0] && fired[1] && fired[2]) VP_REACH(1);
}
