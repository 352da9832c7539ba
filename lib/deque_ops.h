/* queue operations, their oracle and the scheduler of the B01 harnesses */
#include "events_internal.h"
#include <stdlib.h>
#include "vp.h"
#define N (PRE + OPS + BUDGET)
static char items[N];
static int pushed, got[N], ngot, owner_busy, depth, budget = BUDGET, disturbed, live;
static events_deque_t q;
/* storage: one block per size class, with no room to spare; a released block is overwritten */
static size_t b1[3], b2[4], b3[6], b4[10], b5[18];
static void *pool_calloc(size_t c, size_t n) {
	size_t w = (c * n + 7) / 8;
	if (w <= 3) return b1;
	if (w <= 4) return b2;
	if (w <= 6) return b3;
	if (w <= 10) return b4;
	VP_ASSERT(w <= 18, "the queue grows in proportion to its entries");
	return b5;
}
static void *pool_malloc(size_t n) { return pool_calloc(1, n); }
static void *pool_realloc(void *p, size_t n) { return p; }
static void spoil(size_t *b, int n) { int i; for (i = 0; i < n; i++) b[i] = vp_range(1, 9); }
static void pool_free(void *p) {
	if (p == b1) spoil(b1, 3);
	if (p == b2) spoil(b2, 4);
	if (p == b3) spoil(b3, 6);
	if (p == b4) spoil(b4, 10);
	if (p == b5) spoil(b5, 18);
}
static void op_push(void);
static void op_take(void);
static void op_steal(void);
void vp_step(void) {
	if (depth == 0 || depth > DEPTH || budget == 0) return;
	if (vp_bool()) {
		budget--;
		disturbed = 1;
		if (owner_busy) op_steal();
		else switch (vp_range(0, 2)) {
			case 0: op_push(); break;
			case 1: if (TAKE) { op_take(); break; }
			case 2: op_steal(); break;
		}
		disturbed = 1;
	}
}
void vp_lock(void *p) { VP_ASSUME(!*(char *)p); *(char *)p = 1; }
void vp_unlock(void *p) { *(char *)p = 0; }
static void receive(tasks_t *t, int quiet, int oldest) {
	int i, k = -1;
	for (i = 0; i < N; i++) if ((char *)t == &items[i]) k = i;
	if (k >= 0) {
		VP_ASSERT(k < pushed, "only what was pushed comes out");
		VP_ASSERT(!got[k], "no entry comes out twice");
		got[k] = 1; ngot++;
		if (quiet)
			for (i = 0; i < N; i++)
				VP_ASSERT(oldest ? (i >= k || got[i]) : (i <= k || i >= pushed || got[i]), "thieves get the oldest entry, the owner the newest");
	} else if (quiet) {
		VP_ASSERT(ngot == pushed, "an entry comes out while there is one");
	}
}
static void op_push(void) {
	owner_busy = 1; depth++;
	deque_push(&q, (tasks_t *)&items[pushed++]);
	depth--; owner_busy = 0;
}
static void op_take(void) {
	tasks_t *t;
	owner_busy = 1; depth++; disturbed = 0;
	t = deque_take(&q);
	receive(t, !disturbed && depth == 1, 0);
	depth--; owner_busy = 0;
}
static void op_steal(void) {
	tasks_t *t;
	depth++; disturbed = 0;
	t = deque_steal(&q);
	receive(t, !disturbed && depth == 1, 1);
	depth--;
}
void harness(void) {
	int i;
	events_set_allocator(pool_malloc, pool_realloc, pool_calloc, pool_free);
	deque_init(&q, SIZE);
	for (i = 0; i < PRE; i++)
		if (vp_bool()) { depth = 9; op_push(); depth = 0; }
	for (i = 0; i < OPS; i++)
		switch (vp_range(0, 2)) {
		case 0: op_push(); break;
		case 1: if (TAKE) { op_take(); break; }
		case 2: op_steal(); break;
		}
	budget = 0;
	for (i = 0; i < N && ngot < pushed; i++) op_steal();
	VP_ASSERT(ngot == pushed, "every entry pushed comes out");
	op_steal();
	VP_REACH(1);
}
