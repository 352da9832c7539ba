//@ sources:
//@ includes: events deque
//@ hook: steps.h
//@ unwind: 7
//@ quick: timeout=300
//@ thorough: timeout=840
//@ flags: --no-pointer-check --no-pointer-primitive-check --paths lifo
//@ variants: -DSIZE=4 -DOPS=2 -DBUDGET=2; -DSIZE=2 -DOPS=4 -DBUDGET=1
//@ thorough-variants: -DSIZE=4 -DOPS=3 -DBUDGET=2; -DSIZE=2 -DOPS=4 -DBUDGET=2; -DSIZE=4 -DOPS=5 -DBUDGET=1
//@ bounds: OPS operations (a task handed over by any thread, or the owner taking over what is there), and BUDGET more that interrupt them at any atomic access, each run to its end; a queue of SIZE entries at first
#define volatile
#include "events_internal.h"
#include <stdlib.h>
#include "vp.h"
#undef atomic_fetch_add
#undef atomic_fetch_sub
#define atomic_fetch_add(o, v)	({ vp_step(); __atomic_fetch_add(o, v, __ATOMIC_SEQ_CST); })
#define atomic_fetch_sub(o, v)	({ vp_step(); __atomic_fetch_sub(o, v, __ATOMIC_SEQ_CST); })
#include "events.c"
#define N (OPS + BUDGET)
static events_deque_t dq;
static events_deque_t *local[2];
static tasks_t none, again, s0, s1, s2, s3, s4, s5;
static struct { void *prev; size_t size; tasks_t *b[10]; } a0, a1, a2;
static int nested, made, taking, budget = BUDGET, depth, na;
#define T(k) ((k) == 0 ? &s0 : (k) == 1 ? &s1 : (k) == 2 ? &s2 : (k) == 3 ? &s3 : (k) == 4 ? &s4 : &s5)
static void *v_calloc(size_t c, size_t n) {
	VP_ASSERT(c * n <= sizeof a0 && na < 3, "the queue grows in proportion");
	na++;
	return na == 1 ? (void *)&a0 : na == 2 ? (void *)&a1 : (void *)&a2;
}
static void *v_malloc(size_t n) { return v_calloc(1, n); }
static void *v_realloc(void *p, size_t n) { VP_ASSERT(0, "nothing is resized"); return p; }
static void v_free(void *p) { VP_ASSERT(0, "nothing is released"); }
static void give(void) { tasks_t *t = T(made); made++; enqueue_tasks(t); }
static void take(void) { taking = 1; task_take(&dq); taking = 0; }
void vp_step(void) {
	if (depth == 0 || nested || budget == 0) return;
	if (vp_bool()) {
		budget--;
		nested = 1;
		if (!taking && vp_bool()) take();
		else give();
		nested = 0;
	}
}
/* a thread that finds a lock taken by another one waits: it does not run to its end here */
static int held[2];
void vp_lock(void *p) { VP_ASSUME(!held[!nested]); held[nested]++; }
void vp_unlock(void *p) { held[nested]--; }
void harness(void) {
	int i, n = 0, seen[N] = {0};
	tasks_t *t;
	events_set_allocator(v_malloc, v_realloc, v_calloc, v_free);
	/* two addresses that are no task's, as in the code, but ones the encoder can tell apart */
	TASK_EMPTY_T = &none; TASK_ABORT_T = &again;
	deque_init(&dq, SIZE);
	local[0] = &dq; local[1] = &dq;
	sys_event.local = local;
	for (i = 0; i < OPS; i++) {
		depth = 1;
		if (vp_bool()) give(); else take();
		depth = 0;
	}
	take();
	for (t = __thrd()->run_queue->head; t != NULL && n <= N; t = t->next, n++) {
		int k = -1;
		for (i = 0; i < N; i++) if (t == T(i)) k = i;
		VP_ASSERT(k >= 0 && k < made, "only tasks that were handed over run");
		VP_ASSERT(!seen[k], "a task is taken over once");
		seen[k] = 1;
		VP_ASSERT(t->ready && t->taken, "a task taken over is ready");
	}
	VP_ASSERT(n == made, "every task handed over is taken over by the thread");
	VP_ASSERT(__thrd()->task_count == made, "every task taken over is counted");
	VP_ASSERT(dq.available == 0, "nothing more is announced than there is");
	if (made > 1) VP_REACH(1);
}
