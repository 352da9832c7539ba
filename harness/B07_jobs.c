//@ sources:
//@ includes: events future
//@ hook: steps.h
//@ unwind: 9
//@ quick: timeout=300
//@ thorough: timeout=840
//@ flags: --no-pointer-check --no-pointer-primitive-check --paths lifo
//@ variants: -DJOBS=1 -DACTS=2; -DJOBS=2 -DACTS=2
//@ thorough-variants: -DJOBS=1 -DACTS=3; -DJOBS=2 -DACTS=2; -DJOBS=2 -DACTS=3
//@ bounds: JOBS jobs, with and without results, on new or used handles; ACTS acts of the threads that hand jobs over and collect finished ones, each run to its end, at any atomic access, array operation and call of the worker
#define volatile
#include "events_internal.h"
#include <stdlib.h>
#include "vp.h"
#undef atomic_fetch_add
#undef atomic_fetch_sub
#undef atomic_flag_load
#undef atomic_flag_load_explicit
#undef atomic_flag_test_and_set
#define atomic_fetch_add(o, v)	({ vp_step(); __atomic_fetch_add(o, v, __ATOMIC_SEQ_CST); })
#define atomic_fetch_sub(o, v)	({ vp_step(); __atomic_fetch_sub(o, v, __ATOMIC_SEQ_CST); })
#define atomic_flag_load(o)	({ vp_step(); *(o); })
#define atomic_flag_load_explicit(o, m)	({ vp_step(); *(o); })
#define atomic_flag_test_and_set(o)	({ vp_step(); *(o) = 1; })
#define os_sleep vpj_sleep
#define os_exit vpj_exit
void vpj_exit(uint32_t n);
static int vpj_sleep(int ms);
#include "events.c"
static tasks_t handler;
/* the task that hands the job over: as much of it as queue_work_handler does before waiting */
#define create_task(size, fn, args, wait, is_thread) (&handler)
#define task_push(t, has_result) 1
#define yield() vpj_yield()
static void vpj_yield(void);
#include "future.c"
#undef yield
static future *to;
static promise *job_;
static int given;
static void vpj_yield(void) { promise *p = job_; job_ = NULL; VP_ASSERT(p != NULL, "a job is handed over"); enqueue_promise(to, p); }
static events_deque_t dq;
static events_deque_t *local[2];
static future worker;
static events_t loop_;
static ex_memory_t scope_;
static promise p0, p1, p2;
static values_t g0[1], g1[1], g2[1], jobs[8];
static int nested, on, acts, made, slots, of[3], njobs, ran[3], freed[3], released[3], collected[3], stopping;
static void *val[3];
static long thing0, thing2;
#define P(k) ((k) == 0 ? &p0 : (k) == 1 ? &p1 : &p2)
#define G(k) ((k) == 0 ? g0 : (k) == 1 ? g1 : g2)
static int held[2];
/* a thread that finds a lock taken by another one waits: it does not run to its end here */
void vp_lock(void *p) { vp_step(); VP_ASSUME(!held[!nested]); held[nested]++; }
void vp_unlock(void *p) { held[nested]--; }
static int of_args(void *a) { int k; for (k = 0; k < JOBS; k++) if (a == (void *)G(k)) return k; VP_ASSERT(0, "a job gets the arguments it was given"); VP_ASSUME(0); return 0; }
array_t data_append(array_t a, void *v) {
	if (a == jobs) { vp_step(); VP_ASSERT(njobs < 8, "room"); jobs[njobs++].object = v; }
	return a;
}
values_t data_shift(array_t a) {
	values_t v;
	int i;
	vp_step();
	VP_ASSERT(a == jobs && njobs > 0, "a job is taken while there is one");
	v = jobs[0];
	for (i = 0; i < 7; i++) if (i + 1 < njobs) jobs[i].object = jobs[i + 1].object;
	njobs--;
	return v;
}
void data_delete(array_t a) {
	if (a != NULL && a != jobs) {
		int k = of_args(a);
		vp_step();
		VP_ASSERT(!released[k], "a job's arguments are released once");
		released[k] = 1;
	}
}
bool is_data(void *a) { int k; if (a == NULL) return false; for (k = 0; k < JOBS; k++) if (a == (void *)G(k)) return !released[k]; return false; }
bool is_ptr_usable(void *p) { return p != NULL; }
data_types data_type(void *p) { return p == NULL ? DATA_INVALID : *(data_types *)p; }
size_t data_size(array_t a) { return 1; }
ex_memory_t *scope_local(void) { return &scope_; }
ex_memory_t *get_scope(void) { return &scope_; }
int events_destroy(events_t *l) { return 0; }
void vpj_exit(uint32_t n) { }
void scope_unwind(ex_memory_t *s) { vp_step(); }
void rpmalloc_thread_finalize(int n) { }
static values_t two[2], idx[1];
array_t data_ex(size_t n, va_list ap) { int k = given++; return G(k); }
array_t arrays(size_t n, ...) {
	va_list ap;
	va_start(ap, n);
	to = va_arg(ap, future *); job_ = va_arg(ap, promise *);
	va_end(ap);
	return two;
}
static int of_handle(promise *p) { int k; for (k = 0; k < JOBS; k++) if (p == P(k)) return k; return 0; }
static void *vpj_calloc(size_t c, size_t n) { int k = slots++; VP_ASSERT(n >= sizeof(promise) && k < JOBS, "a job is one block"); return P(k); }
static void *vpj_malloc(size_t n) { return vpj_calloc(1, n); }
static void *vpj_realloc(void *p, size_t n) { return vpj_calloc(1, n); }
static void vpj_free(void *p) {
	int k;
	for (k = 0; k < JOBS; k++) if (p == P(k)) { VP_ASSERT(!freed[k], "a job is released once"); freed[k] = 1; P(k)->args = (param_t)jobs; P(k)->func = NULL; }
}
static void *job(param_t a) {
	int k = of_args(a);
	VP_ASSERT(!ran[k] && !released[k], "a job is carried out once, with its arguments");
	ran[k] = 1;
	vp_step();
	val[k] = k == 1 ? NULL : k == 2 ? (void *)&thing2 : (void *)&thing0;
	return val[k];
}
static void hand_over(promise *p) {
	int k = made++;
	if (p) of[k] = of_handle(p);
	else of[k] = slots;
	VP_ASSERT((p ? promise_work(p, job, 1, NULL) : queue_work(&worker, job, 1, NULL)) == P(of[k]), "a job has a handle");
}
static void give(void) { hand_over(NULL); }
static void collect(void) {
	int k;
	for (k = 0; k < JOBS; k++)
		if (k < made && !collected[k] && P(of[k])->done) {
			promise *p = P(of[k]);
			values_t v = promise_wait(p);
			collected[k] = 1;
			VP_ASSERT(ran[k], "a job that is reported done was carried out");
			VP_ASSERT(v.object == val[k], "the one who waits gets the job's value");
			/* another job with the same handle, or done with it */
			if (made < JOBS && vp_bool()) hand_over(p);
			else {
				promise_clean(p);
				VP_ASSERT(freed[of[k]], "a job that is done can be released");
			}
		}
}
void vp_step(void) {
	if (!on || nested || acts == 0 || dq.shutdown) return;
	if (vp_bool()) {
		acts--;
		nested = 1;
		if (made < JOBS && vp_bool()) give(); else collect();
		nested = 0;
	}
}
static int vpj_sleep(int ms) {
	int k;
	vp_step();
	if (dq.available == 0) dq.shutdown = 1;
	return 0;
}
void harness(void) {
	int k;
	events_set_allocator(vpj_malloc, vpj_realloc, vpj_calloc, vpj_free);
	local[0] = local[1] = &dq;
	sys_event.local = local;
	idx[0].u_int = 1;
	sys_event.future_cpu_idx = idx;
	dq.started = 1; dq.jobs = jobs; dq.loop = &loop_; dq.pool = &worker;
	worker.queue = &dq; worker.type = DATA_THREAD; worker.id = 1;
	acts = ACTS;
	give();
	on = 1;
	__future_wrapper(&worker);
	on = 0;
	for (k = 0; k < JOBS; k++) {
		if (k >= made) continue;
		VP_ASSERT(ran[k] && (freed[of[k]] || P(of[k])->done), "every job announced before the end is carried out");
		VP_ASSERT(released[k], "the arguments are released");
	}
	if (made == JOBS) VP_REACH(1);
}
