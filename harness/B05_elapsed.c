//@ sources:
//@ includes: events arrays
//@ drop: tasks_info task_name active_info
//@ unwind: 4
//@ quick: timeout=250
//@ unwindset: atomic_spinlock_lock:1
//@ bounds: one delay of any length, the clock moving by 0, 3, 5 or 3000000 s, 0, 295 or 999 ms and 0 or 999 us meanwhile
#define VPC_TASKS 1
#include "coro.h"
static events_t dummy;
static void *body(param_t a) { return NULL; }
static unsigned s, ms;
static void vpc_step(tasks_t *t) { }
static void vpc_round(void) {
	vpc_sec += s; vpc_usec = ms * 1000 + (vp_bool() ? 0 : 999);
	vpc_back = 1;
	__thrd()->active_handle = vpc_base;
	__thrd()->current_handle = __thrd()->main_handle;
}
static void vpc_turn(void) { }
void harness(void) {
	unsigned got;
	vpc_init();
	__thrd_init(false, 1);
	__thrd()->in_callback = 1;
	__thrd()->loop = &dummy;
	vpc_base = vpc_t[0];
	vpc_depth = 1;
	VP_ASSERT(tasks_schedulering(false) == 0 && vpc_back, "the task runs");
	__thrd()->running = vpc_base;
	vpc_depth = 0;
	s = vp_bool() ? 0 : vp_bool() ? 3 : vp_bool() ? 5 : 3000000; ms = vp_bool() ? 0 : vp_bool() ? 295 : 999;
	got = delay(vp_u32());
	VP_ASSERT(got == s * 1000 + ms, "delay tells how long it took");
	VP_REACH(1);
}
