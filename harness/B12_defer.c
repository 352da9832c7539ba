//@ sources:
//@ includes: events arrays
//@ drop: tasks_info task_name active_info
//@ unwind: 26
//@ quick: timeout=250
//@ thorough: timeout=800
//@ flags: --no-pointer-check --no-pointer-primitive-check --paths lifo
//@ unwindset: add_timeout:4 atomic_spinlock_lock:1
//@ variants: -DOPS=3 -DTWO=0; -DOPS=2 -DTWO=1
//@ thorough-variants: -DOPS=4 -DTWO=0; -DOPS=3 -DTWO=1
//@ bounds: a task that defers up to OPS actions of either kind (with an argument passed by address or by value) or releases of memory, with turns of others in between, any arguments; another task does the same alongside
#define VPC_TASKS 2
#define VPC_ROUNDS 4
#define VA_MAX 4
static void *vpd_malloc(unsigned long n);

#include "coro_arr.h"
bool scope_is_guarded(void) { return false; }
static events_t dummy;
static defer_t d0, d1, d2, d3, d4, d5, d6, d7;
static int nd, dfreed[8], blk[8], bfreed[8], nb, ended[2], ran_end[2];
static void *d_at(int k) {
	switch (k) { case 0: return &d0; case 1: return &d1; case 2: return &d2; case 3: return &d3; case 4: return &d4; case 5: return &d5; case 6: return &d6; }
	return &d7;
}
static unsigned long b0[4], b1[4], b2[4], b3[4], b4[4], b5[4], b6[4], b7[4];
static void *b_at(int k) {
	switch (k) { case 0: return b0; case 1: return b1; case 2: return b2; case 3: return b3; case 4: return b4; case 5: return b5; case 6: return b6; }
	return b7;
}
static void *vpd_malloc(unsigned long n) {
	VP_ASSERT(n == sizeof(defer_t) && nd < 8, "a deferred action is one block");
	return d_at(nd++);
}
/* what each task deferred, and what ran */
static int kind[2][4], n[2], left[2], whose;
static uintptr_t arg[2][4];
static void vpd_ran(int k, uintptr_t a) {
	int w = whose;
	VP_ASSERT(left[w] > 0 && kind[w][left[w] - 1] == k && arg[w][left[w] - 1] == a, "deferred actions run last first, each once, with their argument");
	left[w]--;
}
static void f_ptr(void *p) { vpd_ran(1, (uintptr_t)p); }
static void f_int(intptr_t i) { vpd_ran(2, (uintptr_t)i); }
static void vpd_free(void *p) {
	int i;
	for (i = 0; i < 8; i++) if (p == d_at(i)) { VP_ASSERT(i < nd && !dfreed[i], "a deferred action is released once"); dfreed[i] = 1; return; }
	for (i = 0; i < 8; i++) if (p == b_at(i)) { vpd_ran(3, (uintptr_t)p); bfreed[i] = 1; return; }
	vpc_free(p);
}
static void *vpc_other_calloc(size_t n) { VP_ASSERT(0, "nothing else is made"); return NULL; }
static void *body(param_t a) { return NULL; }
static void vpc_step(tasks_t *t) {
	int w = t == vpc_t[1], more = n[w] < OPS;
	VP_ASSERT(!ended[w], "a task that ended does not run");
	if (more && vp_bool()) {
		uintptr_t a = vp_u64();
		int i = n[w]++;
		left[w]++;
		if (vp_bool()) { kind[w][i] = 1; arg[w][i] = a; VP_ASSERT(deferred((func_t)f_ptr, (void *)a, true) == n[w], "deferred actions are numbered"); }
		else if (vp_bool()) { kind[w][i] = 2; arg[w][i] = a; VP_ASSERT(deferred((func_t)f_int, (void *)a, false) == n[w], "deferred actions are numbered"); }
		else { kind[w][i] = 3; arg[w][i] = (uintptr_t)b_at(nb); VP_ASSERT(defer_free(b_at(nb)), "memory can be deferred"); nb++; }
		VP_ASSERT(left[w] == n[w], "nothing deferred runs before the task ends");
		yield();
		return;
	}
	whose = w; ended[w] = 1;
	task_awaitable();
	VP_ASSERT(left[w] == 0, "everything deferred has run when a task has ended");
	task_done();
}
static void vpc_round(void) { vpc_schedule(); }
static void vpc_turn(void) { }
void harness(void) {
	int i;
	vpc_init();
	events_set_allocator((malloc_cb)vpd_malloc, vpc_realloc, vpc_calloc, vpd_free);
	__thrd()->in_callback = 1;
	__thrd()->loop = &dummy;
	task_push(create_task(0, (data_func_t)body, NULL, false, false), false);
#if TWO
	task_push(create_task(0, (data_func_t)body, NULL, false, false), false);
#endif
	vpc_depth = 1;
	for (i = 0; i < (OPS + 1) * (1 + TWO) && __thrd()->task_count; i++) vpc_schedule();
	VP_ASSERT(__thrd()->task_count == 0 && vpc_nfreed == 1 + TWO, "tasks are released when they have ended");
	for (i = 0; i < 8; i++) VP_ASSERT(i >= nd || dfreed[i], "a deferred action is released");
	VP_REACH(1);
}
