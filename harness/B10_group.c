//@ sources:
//@ includes: events arrays
//@ drop: tasks_info task_name active_info deferred_unwind data_gc
//@ unwind: 26
//@ quick: timeout=250
//@ thorough: timeout=800
//@ flags: --no-pointer-check --no-pointer-primitive-check --paths lifo
//@ unwindset: add_timeout:4 atomic_spinlock_lock:1
//@ variants: -DNW=2 -DNS=1 -DSLEEP=1; -DNW=1 -DNS=2 -DSLEEP=1; -DNW=1 -DNS=1 -DSLEEP=1 -DIDLE=1; -DNW=3 -DNS=1 -DSLEEP=0; -DNW=2 -DNS=2 -DSLEEP=0
//@ thorough-variants: -DNW=2 -DNS=1 -DSLEEP=1; -DNW=2 -DNS=1 -DSLEEP=1 -DIDLE=1; -DNW=1 -DNS=3 -DSLEEP=1 -DIDLE=1; -DNW=3 -DNS=2 -DSLEEP=0; -DNW=4 -DNS=1 -DSLEEP=0; -DNW=2 -DNS=3 -DSLEEP=0
//@ bounds: a task that starts a group of NW tasks and waits for it; each of up to NS blocking steps (yield, or with SLEEP a delay of 0 or 3 ms) and with or without a result; the clock moves 4 ms a scheduling round, standing still in IDLE rounds at any point
#define VPC_TASKS (NW + SLEEP)
/* as long as any of the blocking steps can last, and then some */
#define VPC_ROUNDS 24
#define VPC_FAIR
#ifndef IDLE
#define IDLE 0
#endif
#define FIRST (1 + SLEEP)
#include "coro_arr.h"
static events_t dummy;
static struct task_group_s group;
static int steps[8], ended[8], result[8], turns, nrel;
static void *vpc_other_calloc(size_t n) { VP_ASSERT(n == sizeof group, "a group is one block"); return vpc_new(0, &group, n); }
static int idx(tasks_t *t) {
	int i;
	for (i = 0; i < NW + FIRST; i++) if (t == vpc_t[i]) return i;
	VP_ASSERT(0, "only tasks that were started run");
	return 0;
}
/* the sleep system takes the first result */
#define RID(i) ((i) - FIRST + SLEEP)
static int cur;
static uintptr_t value[8];
static void *body(param_t a) { return result[cur] ? (void *)value[cur] : NULL; }
static void vpc_step(tasks_t *t) {
	int k = idx(t), op = 1;
#if SLEEP
	if (k == 0) { vpc_sleep_step(); return; }
#endif
	if (steps[k] < NS && vp_bool()) op = 0;
	VP_ASSERT(!ended[k] && !vpc_freed[k], "a task that ended does not run");
	steps[k]++;
#if SLEEP
	if (op == 0 && vp_bool()) { if (vp_bool()) delay(3); else delay(0); return; }
#endif
	if (op == 1) { ended[k] = 1; cur = k; vpc_task_body(); }
	else yield();
}
static int idle;
static void vpc_round(void) {
	if (idle < IDLE && vp_bool()) idle++; else vpc_usec += 4000;
	vpc_schedule();
}
static void vpc_turn(void) { VP_ASSERT(++turns <= 12 * NS + 8, "a wait for a group ends once its tasks have"); }
void harness(void) {
	int i, n, want = 0;
	array_t r;
	task_group_t *wg;
	vpc_init();
	sys_event.queue_size = 4;
#if SLEEP
	__thrd_init(false, 1);
#endif
	__thrd()->in_callback = 1;
	__thrd()->loop = &dummy;
	/* the task that waits */
	task_push(create_task(0, (data_func_t)body, NULL, false, true), false);
	vpc_base = vpc_t[SLEEP];
	vpc_depth = 1;
#if SLEEP
	vpc_schedule();
	VP_ASSERT(!vpc_back, "tasks run in the order they were started");
#endif
	vpc_schedule();
	VP_ASSERT(vpc_back && __thrd()->active_handle == vpc_base, "tasks run in the order they were started");
	__thrd()->running = vpc_base;
	vpc_depth = 0;
	wg = task_group();
	VP_ASSERT(is_taskgroup(wg), "a group is one");
	for (i = FIRST; i < NW + FIRST; i++) {
		if (vp_bool()) { result[i] = 1; want++; value[i] = vp_u64(); VP_ASSUME(value[i]); }
		VP_ASSERT(task_push(create_task(0, (data_func_t)body, NULL, false, true), true) == RID(i), "results are numbered in order");
	}
	VP_ASSERT(tasks_count(wg) == NW, "a group counts its tasks");
	r = tasks_wait(wg);
	for (i = FIRST; i < NW + FIRST; i++) {
		VP_ASSERT(ended[i], "a wait for a group returns when every task of it has ended");
		VP_ASSERT(vpc_freed[i], "a task of a group is released");
		VP_ASSERT(task_is_ready(RID(i)), "an ended task's result is ready");
		VP_ASSERT(results_for(RID(i)).max_size == (result[i] ? value[i] : 0), "a result is what the task returned");
		if (result[i]) {
			int j, seen = 0;
			for (j = 0; j < want; j++) seen += r[j].u_int == RID(i);
			VP_ASSERT(seen == 1, "each result's number is given once");
		}
	}
	VP_ASSERT(want ? r && $size(r) == want : r == NULL, "as many results as tasks that returned one");
	VP_ASSERT(__thrd()->task_count == 1 && __thrd()->sleep_count == 0, "only the waiting task is left");
	VP_ASSERT(!is_taskgroup(wg), "a group is over with its wait");
	VP_REACH(1);
}
