//@ sources:
//@ includes: events arrays
//@ drop: tasks_info task_name active_info
//@ unwind: 8
//@ quick: timeout=250
//@ thorough: timeout=800
//@ unwindset: add_timeout:4 atomic_spinlock_lock:1
//@ variants: -DNT=3 -DN0=2 -DTURNS=3; -DNT=3 -DN0=3 -DTURNS=4
//@ thorough-variants: -DNT=3 -DN0=2 -DTURNS=4; -DNT=3 -DN0=3 -DTURNS=4; -DNT=4 -DN0=3 -DTURNS=4; -DNT=4 -DN0=4 -DTURNS=3
//@ bounds: N0 tasks at first and NT at most, each of up to 3 stretches that end in yield or in returning (with N0 < NT the first task starts one more); TURNS turns of a task that goes on yielding
#define VPC_TASKS NT
#include "coro.h"
static events_t dummy;
static int steps[8], ended[8], turns, q[16], qh, qt;
static int idx(tasks_t *t) {
	int i;
	for (i = 0; i <= NT; i++) if (i < vpc_nt && t == vpc_t[i]) return i;
	VP_ASSERT(0, "only tasks that were started run");
	return 0;
}
static void qpush(int k) { q[qt++ % 8] = k; }
static int qpop(void) { return q[qh++ % 8]; }
static void *body(param_t a) { return NULL; }
static void start(void) {
	tasks_t *t = create_task(0, (data_func_t)body, NULL, false, true);
	VP_ASSERT(t->status == TASK_SUSPENDED, "a new task waits to be started");
	qpush(vpc_nt - 1);
	VP_ASSERT(task_push(t, false) == t->cid && t->cid > 0, "a started task has an id");
}
static void vpc_step(tasks_t *t) {
	int k = idx(t), op = steps[k] < 2 ? 2 * (int)vp_range(0, 1) : 2;
	VP_ASSERT(!ended[k] && !vpc_freed[k], "a task that ended does not run");
	VP_ASSERT(__thrd()->running == t && active_task() == t && t->status == TASK_RUNNING, "the running task is known");
	VP_ASSERT(k == qpop(), "tasks run in the order they became ready");
	steps[k]++;
	/* the first task starts another at once */
	if (k == 1 && steps[k] == 1 && vpc_nt <= NT) start();
	if (op == 2) { ended[k] = 1; vpc_task_body(); }
	else { qpush(k); yield(); }
}
static void vpc_round(void) {
	int i, left = vpc_nfreed;
	VP_ASSERT(vpc_schedule() == 0, "the queue is not empty");
	for (i = 0; i <= NT; i++) VP_ASSERT(!ended[i] || vpc_freed[i], "a task that returned is released");
	VP_ASSERT(vpc_nfreed <= left + 1, "only the task that returned is released");
}
static void vpc_turn(void) {
	int i, live = 0;
	VP_ASSERT(0 == qpop(), "a task that yields runs again in its turn");
	for (i = 1; i <= NT; i++) if (i < vpc_nt && !ended[i]) live++;
	VP_ASSERT(__thrd()->task_count == live, "live tasks are counted");
	turns++;
}
void harness(void) {
	int i;
	vpc_init();
	__thrd_init(false, 1);
	__thrd()->in_callback = 1;
	__thrd()->loop = &dummy;
	vpc_base = vpc_t[0];
	for (i = 0; i < N0; i++) start();
	vpc_depth = 1;
	VP_ASSERT(tasks_schedulering(false) == 0 && vpc_back, "tasks run in the order they were started");
	__thrd()->running = vpc_base;
	vpc_depth = 0;
	task_system();
	for (i = 0; i < TURNS; i++) { qpush(0); yield(); }
	VP_REACH(1);
}
