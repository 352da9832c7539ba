//@ sources:
//@ includes: events arrays
//@ drop: tasks_info task_name active_info
//@ shrink: MAX_PATH=8 ERR_BUF=8
//@ unwind: 7
//@ quick: timeout=500
//@ thorough: timeout=800
//@ flags: --no-pointer-check --no-pointer-primitive-check
//@ unwindset: add_timeout:4 atomic_spinlock_lock:1
//@ variants: -DNT=2 -DNS=1 -DTURNS=2; -DNT=2 -DNS=1 -DTURNS=3; -DNT=3 -DNS=1 -DTURNS=2 -DDELAYS
//@ thorough-variants: -DNT=2 -DNS=1 -DTURNS=2; -DNT=2 -DNS=1 -DTURNS=3; -DNT=3 -DNS=1 -DTURNS=2; -DNT=2 -DNS=2 -DTURNS=3; -DNT=3 -DNS=1 -DTURNS=3
//@ bounds: NT tasks of NS blocking steps (yield, or delay of 0, 2, 5 or 4000000 ms; with DELAYS only of 2 or 5 ms), TURNS turns of the sleep system, the clock moving between scheduling rounds by up to 7 ms
#define VPC_TASKS NT
#include "coro.h"
static events_t dummy;
static int sleeping[6], steps[6], ended[6], since[6], turns, live;
static uint64_t due[6], at_turn;
static int idx(tasks_t *t) {
	int i;
	for (i = 1; i <= NT; i++) if (t == vpc_t[i]) return i;
	VP_ASSERT(0, "only tasks that were started run");
	return 1;
}
static void *body(param_t a) { return NULL; }
static void vpc_step(tasks_t *t) {
	int k = idx(t), j, op;
	VP_ASSERT(!ended[k] && !vpc_freed[k], "a task that ended does not run");
	VP_ASSERT(__thrd()->running == t && active_task() == t, "the running task is known");
	if (sleeping[k]) {
		VP_ASSERT(vpc_ns() >= due[k], "no task resumes before its delay is over");
		for (j = 1; j <= NT; j++)
			VP_ASSERT(!sleeping[j] || due[j] >= due[k], "tasks resume in the order of their times");
		sleeping[k] = 0;
	}
#ifdef DELAYS
	op = steps[k] < NS ? vp_range(2, 3) : 5;
#else
	op = steps[k] < NS ? vp_range(0, 4) : 5;
#endif
	steps[k]++;
	if (op == 0) yield();
	else if (op == 5) { VP_ASSERT(t->func == (data_func_t)body, "a task keeps its function"); t->func = (data_func_t)body; ended[k] = 1; live--; vpc_task_body(); }
	else {
		uint32_t ms = op == 1 ? 0 : op == 2 ? 2 : op == 3 ? 5 : 4000000;
		due[k] = vpc_ns() + (uint64_t)ms * 1000000;
		sleeping[k] = 1; since[k] = turns;
		delay(ms);
	}
}
static void vpc_round(void) {
	vpc_usec += vp_range(0, 7) * 1000;
	VP_ASSERT(vpc_schedule() == 0, "the sleep system stays in the queue");
}
static void vpc_turn(void) {
	int i, n = 0;
	for (i = 1; i <= NT; i++) {
		if (sleeping[i]) {
			if (vpc_t[i]->status == TASK_SLEEPING) n++;
			VP_ASSERT(since[i] >= turns || due[i] > at_turn || vpc_t[i]->status != TASK_SLEEPING, "a task whose time has come is made runnable, whatever the others do");
		}
	}
	VP_ASSERT(__thrd()->sleep_count == n, "sleeping tasks are counted");
	VP_ASSERT(__thrd()->task_count == live + (n > 0), "live tasks are counted");
	at_turn = vpc_ns();
	if (++turns == TURNS) __thrd()->exiting = 1;
}
void harness(void) {
	int i;
	vpc_init();
	__thrd_init(false, 1);
	__thrd()->in_callback = 1;
	__thrd()->loop = &dummy;
	vpc_base = vpc_t[0];
	VP_ASSERT(vpc_nt == 1, "the sleep system is a task");
	for (i = 0; i < NT; i++)
		VP_ASSERT(task_push(create_task(0, (data_func_t)body, NULL, false, true), false) > 0, "a task starts");
	live = NT;
	vpc_depth = 1;
	VP_ASSERT(tasks_schedulering(false) == 0 && vpc_back, "tasks run in the order they were started");
	__thrd()->running = vpc_base;
	vpc_depth = 0;
	task_wait_system(NULL);
	VP_REACH(1);
}
