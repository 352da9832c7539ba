//@ sources:
//@ includes: events arrays
//@ drop: tasks_info task_name active_info
//@ unwind: 26
//@ quick: timeout=250
//@ thorough: timeout=800
//@ flags: --no-pointer-check --no-pointer-primitive-check --paths lifo
//@ unwindset: add_timeout:4 atomic_spinlock_lock:1
//@ variants: -DSIDE=0 -DNV=2 -DPG=0 -DRG=2 -DREAD=3; -DSIDE=0 -DNV=1 -DPG=1 -DRG=3 -DREAD=2; -DSIDE=0 -DNV=0 -DPG=1 -DRG=1 -DREAD=2; -DSIDE=1 -DNV=2 -DPG=1 -DRG=2 -DREAD=0
//@ thorough-variants: -DSIDE=0 -DNV=2 -DPG=1 -DRG=2 -DREAD=3; -DSIDE=0 -DNV=3 -DPG=0 -DRG=2 -DREAD=4; -DSIDE=0 -DNV=1 -DPG=2 -DRG=3 -DREAD=2; -DSIDE=1 -DNV=3 -DPG=1 -DRG=2 -DREAD=0
//@ bounds: a generator of NV values of any kind, with up to PG turns of others before each (or the end), read READ times (also beyond its end) with up to RG turns of others before each; a third task yields alongside. SIDE 0: the reader is encoded with its stack and real reads, SIDE 1: the generator
#define VPC_TASKS 3
#define VPC_ROUNDS 24
#define VPC_FAIR
#include "coro_arr.h"
static events_t dummy;
static struct generator_s gens;
static generator_t gen;
static uintptr_t value[8], ret;
static int made, given, gaps, over, gen_freed, nread, turns, other_over, other_turns;
static void *vpc_other_calloc(size_t n) { VP_ASSERT(n == sizeof gens, "a generator is one block"); return vpc_new(0, &gens, n); }
static void *body(param_t a) { return (void *)ret; }
#define CONSUMER vpc_t[0]
#define OTHER vpc_t[1]
#define PRODUCER vpc_t[2]
static void got(values_t v) {
	if (nread < NV) VP_ASSERT(v.max_size == value[nread], "the values read are those yielded, each once, in order");
	else VP_ASSERT(v.max_size == 0, "after its last value a generator gives nothing");
	nread++;
}
static void producer_ends(void) {
	over = 1;
	vpc_task_body();
}
static void vpc_step(tasks_t *t) {
	VP_ASSERT(!t->halt, "a task that ended does not run");
	if (t == OTHER) {
		VP_ASSERT(!(other_over & 1), "a task that ended does not run");
		if (other_turns++ == 2) { other_over |= 1; vpc_task_body(); }
		else yield();
		return;
	}
#if SIDE == 0
	VP_ASSERT(t == PRODUCER && !over, "a task that ended does not run");
	/* resumed where its last value waits to be taken, as yielding() does */
	if (made > 0 && gen->is_ready && made < NV) { yield(); return; }
	if (gaps < PG && vp_bool()) { gaps++; yield(); return; }
	if (made < NV) {
		gaps = 0;
		yielding((void *)value[made++]);
	} else producer_ends();
#else
	VP_ASSERT(t == CONSUMER && !(other_over & 2), "a task that ended does not run");
	if (gen == NULL) {
		gen = generator(body, 0);
		VP_ASSERT(data_type(gen) == DATA_GENERATOR && gen->context == PRODUCER, "a generator is one");
		vpc_base = vpc_t[2];
		yield(); return;
	}
	if (nread == NV) { other_over |= 2; vpc_task_body(); return; }
	/* yielded() waits for a value */
	if (!gen->is_ready) { yield(); return; }
	if (gaps < RG && vp_bool()) { gaps++; yield(); return; }
	gaps = 0;
	got(yielded(gen));
	yield();
#endif
}
static void vpc_round(void) { vpc_schedule(); }
static void vpc_turn(void) { VP_ASSERT(++turns <= 40, "reading and generating come to an end"); }
static void start(void) {
	task_push(create_task(0, (data_func_t)body, NULL, false, false), false);
}
void harness(void) {
	int i, j;
	vpc_init();
	sys_event.queue_size = 4;
	__thrd()->in_callback = 1;
	__thrd()->loop = &dummy;
	for (i = 0; i < NV; i++) value[i] = vp_u64();
	ret = vp_u64();
	start(); start();
	vpc_base = SIDE ? NULL : CONSUMER;
	vpc_depth = 1;
	vpc_schedule();
#if SIDE
	vpc_schedule(); vpc_schedule();
#endif
	(void)j;
#if SIDE == 0
	VP_ASSERT(vpc_back, "tasks run in the order they were started");
	__thrd()->running = vpc_base;
	vpc_depth = 0;
	gen = generator(body, 0);
	VP_ASSERT(data_type(gen) == DATA_GENERATOR && gen->context == PRODUCER, "a generator is one");
	for (i = 0; i < READ; i++) {
		for (j = 0; j < RG && vp_bool(); j++) yield();
		VP_ASSERT(!vpc_freed[2] && data_type(gen) == DATA_GENERATOR, "a generator can be asked for values also after its end");
		got(yielded(gen));
		VP_ASSERT(i >= NV || gen_id() == gen->rid, "the generator last read from is known");
	}
	VP_ASSERT(over || NV > READ, "a generator that has nothing more to give has ended");
	VP_ASSERT(results_for(gen->rid).max_size == ret, "the generator's own result can be looked up");
#else
	VP_ASSERT(vpc_back, "tasks run in the order they were started");
	__thrd()->running = vpc_base;
	vpc_depth = 0;
	for (i = 0; i < NV; i++) {
		for (j = 0; j < PG && vp_bool(); j++) yield();
		yielding((void *)value[i]);
		VP_ASSERT(nread >= i, "a value waits for the one before it to be taken");
	}
	while (nread < NV) yield();
	/* it is the only one left but for those that take one more turn to end */
	yield();
	VP_ASSERT(other_over & 2, "reading comes to an end");
	over = 0;
#endif
	VP_ASSERT(__thrd()->task_count == 1 + !(other_over & 1), "an ended generator is no live task");
	VP_REACH(1);
}
