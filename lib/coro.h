/* Coroutines under a symbolic scheduler. events.c is included whole; what is replaced is the
 * machine's part of a switch (the assembly that exchanges stacks and prepares a new one). Everything that decides which task runs is the real code: the run queue,
 * the sleep queue, yield, suspend, delay, task_switch, tasks_schedulering.
 *
 * One context is the base frame: it keeps its C stack for the whole run, so its blocking calls
 * return in the middle of real functions. Every other task is a step machine: vpc_step(k) is
 * one stretch of task k between two blocking calls and ends with the (real) blocking call.
 *   depth 0: base frame runs; depth 1: the scheduler runs under it; depth 2: a task runs. */
#ifndef VP_CORO_H
#define VP_CORO_H
/* one thread: nothing changes behind its back (and values stay known to the encoder) */
#define volatile
#include "events_internal.h"
#include <stdlib.h>
#include <string.h>
#include "vp.h"
#undef open
#undef close
#undef read
#undef write
#undef connect
#undef mkfifo
#ifndef VPC_TASKS
#define VPC_TASKS 4
#endif
#ifndef VPC_ROUNDS
#define VPC_ROUNDS (VPC_TASKS + 1)
#define VPC_FAIR
#endif
#ifndef VPA_CAP
#define VPA_CAP 12
#endif
static void vp_switch(void);
/* the machine code that exchanges stacks */
#undef USE_ASSEMBLY
#define coro_swap(to, from) vp_switch()
#define gettimeofday vpc_gettimeofday
#define time(t) vpc_time(t)
static time_t vpc_time(time_t *t);
static int vpc_gettimeofday(struct timeval *tv, void *tz);
#undef memmove
#define memmove vpc_memmove
static void *vpc_memmove(void *d, const void *s, size_t n) {
	/* towards lower addresses, whole elements */
	size_t i;
	unsigned long *a = d; const unsigned long *b = s;
	for (i = 0; i < n / sizeof(values_t); i++) a[i] = b[i];
	return d;
}
#include "events.c"
tasks_t *task_derive(void *memory, size_t size, bool is_thread) { return memory; }
/* a task's function, from its start to its end */
static void *body(param_t a);
static void vpc_task_body(void) {
	tasks_t *t = __thrd()->active_handle;
	VP_ASSERT(t->func == (data_func_t)body && t->garbage == NULL && t->args == NULL, "a task keeps its function");
	t->func = (data_func_t)body; t->garbage = NULL; t->args = NULL;
	task_awaitable();
	task_done();
}
#ifndef VPC_NO_ARRAYS
#include "arrays.c"
#endif

/* memory: tasks, results and arrays, each block an object of its own */
#ifdef VPC_NO_ARRAYS
#define VPA_HDR 1
#else
#define VPA_HDR (sizeof(array_metadata_t) / sizeof(values_t))
#endif
static unsigned long vpa0[VPA_HDR + VPA_CAP], vpa1[VPA_HDR + VPA_CAP], vpa2[VPA_HDR + VPA_CAP], vpa3[VPA_HDR + VPA_CAP],
	vpa4[VPA_HDR + VPA_CAP], vpa5[VPA_HDR + VPA_CAP], vpa6[VPA_HDR + VPA_CAP], vpa7[VPA_HDR + VPA_CAP],
	vpa8[VPA_HDR + VPA_CAP], vpa9[VPA_HDR + VPA_CAP], vpa10[VPA_HDR + VPA_CAP], vpa11[VPA_HDR + VPA_CAP];
static struct results_data vpr0, vpr1, vpr2, vpr3, vpr4, vpr5, vpr6, vpr7;
static results_data_t vptab0[8], vptab1[8], vptab2[8], vptab3[8], vptab4[8];
static tasks_t vpt0, vpt1, vpt2, vpt3, vpt4, vpt5;
static tasks_t *vpc_t[6];
static int vpc_nt, vpc_nr, vpc_ntab, vpc_na, vpc_freed[6], vpc_nfreed, vpc_alive;
static void *vpc_new(int k, void *p, size_t n) {
#ifdef VP_CBMC
	return p;
#else
	/* usable addresses lie high */
	return calloc(1, n);
#endif
}
static unsigned long *vpa_at(int k) {
	switch (k) {
	case 0: return vpc_new(k, vpa0, sizeof vpa0); case 1: return vpc_new(k, vpa1, sizeof vpa0);
	case 2: return vpc_new(k, vpa2, sizeof vpa0); case 3: return vpc_new(k, vpa3, sizeof vpa0);
	case 4: return vpc_new(k, vpa4, sizeof vpa0); case 5: return vpc_new(k, vpa5, sizeof vpa0);
	case 6: return vpc_new(k, vpa6, sizeof vpa0); case 7: return vpc_new(k, vpa7, sizeof vpa0);
	case 8: return vpc_new(k, vpa8, sizeof vpa0); case 9: return vpc_new(k, vpa9, sizeof vpa0);
	case 10: return vpc_new(k, vpa10, sizeof vpa0); case 11: return vpc_new(k, vpa11, sizeof vpa0); }
	VP_ASSERT(0, "blocks suffice"); VP_ASSUME(0); return 0;
}
static results_data_t vpr_at(int k) {
	switch (k) {
	case 0: return vpc_new(k, &vpr0, sizeof vpr0); case 1: return vpc_new(k, &vpr1, sizeof vpr0);
	case 2: return vpc_new(k, &vpr2, sizeof vpr0); case 3: return vpc_new(k, &vpr3, sizeof vpr0);
	case 4: return vpc_new(k, &vpr4, sizeof vpr0); case 5: return vpc_new(k, &vpr5, sizeof vpr0);
	case 6: return vpc_new(k, &vpr6, sizeof vpr0); case 7: return vpc_new(k, &vpr7, sizeof vpr0); }
	VP_ASSERT(0, "results suffice"); VP_ASSUME(0); return 0;
}
static results_data_t *vptab_at(int k) {
	switch (k) {
	case 0: return vpc_new(k, vptab0, sizeof vptab0); case 1: return vpc_new(k, vptab1, sizeof vptab0);
	case 2: return vpc_new(k, vptab2, sizeof vptab0); case 3: return vpc_new(k, vptab3, sizeof vptab0);
	case 4: return vpc_new(k, vptab4, sizeof vptab0); }
	VP_ASSERT(0, "tables suffice"); VP_ASSUME(0); return 0;
}
static tasks_t *vpt_at(int k) {
	switch (k) {
	case 0: return vpc_new(k, &vpt0, 40000); case 1: return vpc_new(k, &vpt1, 40000); case 2: return vpc_new(k, &vpt2, 40000);
	case 3: return vpc_new(k, &vpt3, 40000); case 4: return vpc_new(k, &vpt4, 40000); case 5: return vpc_new(k, &vpt5, 40000); }
	VP_ASSERT(0, "tasks suffice"); VP_ASSUME(0); return 0;
}
static void *vpc_malloc(size_t n) {
	if (n == sizeof(_results_data_t)) return vpr_at(vpc_nr++);
	VP_ASSERT(n <= sizeof vpa0, "storage stays in proportion");
	return vpa_at(vpc_na++);
}
#ifndef VPC_OWN_CALLOC
#define vpc_other_calloc(n) (VP_ASSERT(0, "only tasks are cleared memory"), (void *)0)
#endif
static void *vpc_calloc(size_t c, size_t n) {
	n *= c;
	if (n < sizeof(tasks_t)) return vpc_other_calloc(n);
	VP_ASSERT(vpc_nt < VPC_TASKS + 1, "tasks suffice");
	vpc_t[vpc_nt] = vpt_at(vpc_nt);
	return vpc_t[vpc_nt++];
}
static void *vpc_realloc(void *p, size_t n) {
	unsigned i;
	if (p == (void *)sys_event.results) {
		results_data_t *a = p, *b = vptab_at(vpc_ntab++);
		VP_ASSERT(n <= sizeof vptab0, "tables suffice");
		if (a != NULL) for (i = 0; i < 8; i++) { b[i] = a[i]; a[i] = NULL; }
		return b;
	}
	return p;
}
static void vpc_free(void *p) {
	int i, k = -1;
	for (i = 0; i < VPC_TASKS + 1; i++) if (i < vpc_nt && p == (void *)vpc_t[i]) k = i;
	if (k < 0) return;
	VP_ASSERT(!vpc_freed[k], "a task is released once");
	vpc_freed[k] = 1; vpc_nfreed++;
	vpc_t[k]->next = vpc_t[k]->prev = NULL;
	vpc_t[k]->halt = true;
}

/* the clock */
static uint64_t vpc_sec = 1000, vpc_usec;
static int vpc_gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = vpc_sec; tv->tv_usec = vpc_usec; return 0; }
static uint64_t vpc_ns(void) { return vpc_sec * 1000000000 + vpc_usec * 1000; }
static time_t vpc_time(time_t *t) { return 1000; }


#ifndef VP_CBMC
#ifdef VPC_NO_ARRAYS
int cerr(const char *m, ...) { return 0; }
#endif
os_thread_t os_self(void) { return 0; }
#endif

/* switching */
static int vpc_depth, vpc_back, vpc_skip;
static tasks_t *vpc_base;
static void vpc_step(tasks_t *t);
static void vpc_round(void);	/* one scheduling round */
static void vpc_turn(void);	/* the base frame is resumed */
/* the same values, told apart: each task's stretch is encoded for that task alone */
static void vpc_dispatch(tasks_t *to) {
	int i;
	for (i = 0; i < VPC_TASKS + 1; i++)
		if (i < vpc_nt && to == vpc_t[i]) {
			__thrd()->active_handle = vpc_t[i];
			vpc_step(vpc_t[i]);
			return;
		}
	VP_ASSERT(0, "only tasks are switched to"); VP_ASSUME(0);
}
static int vpc_schedule(void) {
	int i;
	for (i = 0; i < VPC_TASKS + 1; i++)
		if (i < vpc_nt && __thrd()->run_queue->head == vpc_t[i]) {
			__thrd()->run_queue->head = vpc_t[i];
			return tasks_schedulering(false);
		}
	return tasks_schedulering(false);
}
static void vp_switch(void) {
	tasks_t *to = __thrd()->active_handle;
	int n;
	if (vpc_depth == 2 && vpc_skip) {
		/* the sleep system as a step machine: its turn starts where this yield returns */
		vpc_skip = 0;
		__thrd()->exiting = 1;
		VP_ASSERT(__thrd()->run_queue->tail == vpc_t[0], "yield puts the running task at the end of the queue");
		__thrd()->run_queue->tail = vpc_t[0]->prev;
		if (vpc_t[0]->prev) vpc_t[0]->prev->next = NULL; else __thrd()->run_queue->head = NULL;
		__thrd()->active_handle = vpc_t[0];
		__thrd()->current_handle = __thrd()->main_handle;
		return;
	}
	if (vpc_depth == 2) {
		VP_ASSERT(to == __thrd()->main_handle, "a task blocks by switching to the scheduler");
		__thrd()->active_handle = __thrd()->main_handle;
		vpc_depth = 1;
	} else if (vpc_depth == 1) {
		VP_ASSERT(to != __thrd()->main_handle, "the scheduler runs a task");
		if (to == vpc_base) { vpc_back = 1; return; }
		vpc_depth = 2;
		vpc_dispatch(to);
		VP_ASSERT(vpc_depth == 1, "a task's stretch ends by blocking");
		vpc_depth = 1;
		__thrd()->active_handle = __thrd()->main_handle;
	} else {
		VP_ASSERT(to == __thrd()->main_handle, "the base frame blocks by switching to the scheduler");
		__thrd()->active_handle = __thrd()->main_handle;
		__thrd()->running = NULL;
		vpc_depth = 1; vpc_back = 0;
		for (n = 0; n < VPC_ROUNDS && !vpc_back; n++) {
			VP_ASSERT(__thrd()->active_handle == __thrd()->main_handle && __thrd()->running == NULL, "a task that blocked gave way to the scheduler");
			__thrd()->active_handle = __thrd()->main_handle;
			__thrd()->running = NULL;
			vpc_round();
		}
#ifdef VPC_FAIR
		VP_ASSERT(vpc_back, "a task that yielded (or whose time came) runs again");
#endif
		VP_ASSUME(vpc_back);
		VP_ASSERT(__thrd()->active_handle == vpc_base && __thrd()->current_handle == __thrd()->main_handle, "the scheduler switched to the base frame");
		__thrd()->active_handle = vpc_base;
		__thrd()->current_handle = __thrd()->main_handle;
		vpc_depth = 0;
		__thrd()->running = vpc_base;
		vpc_turn();
	}
}
static void vpc_sleep_step(void) {
	vpc_skip = 1;
	/* runs until it would yield again */
	task_wait_system(NULL);
	__thrd()->exiting = 0;
	yield();
}
static void vpc_init(void) {
	events_set_allocator(vpc_malloc, vpc_realloc, vpc_calloc, vpc_free);
	sys_event.queue_size = 2;
	sys_event.results = NULL;
	__thrd()->is_main = false;
	/* the library's own stacks are not modelled */
	__thrd()->in_callback = 1;
}
#endif
