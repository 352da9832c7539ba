/* Stand-ins shared by the harnesses that encode the string/array/URI code alone:
 * the allocator forwards to malloc, deferred clean-up is recorded and never run early. */
#ifndef VP_ENV_H
#define VP_ENV_H
#include "events_internal.h"
#include <stdlib.h>
#include <string.h>
#undef open
#undef close
#undef read
#undef write
#undef connect
#undef mkfifo
#include "vp.h"

#ifndef VP_CPUS
#define VP_CPUS 1
#endif
#if defined(VP_POOL)
/* Blocks of at most VP_POOL bytes, each right-aligned in an object of its own: writing or
 * reading past the end leaves the object, whatever the (symbolic) size was. */
static void *vp_block(size_t n, int zero) {
	unsigned char *p;
	VP_ASSERT(n <= VP_POOL, "allocation sizes stay in proportion to the input");
	p = zero ? calloc(1, VP_POOL) : malloc(VP_POOL);
	return p + (VP_POOL - n);
}
/* arrays take their storage from malloc/realloc, texts from calloc */
void *events_malloc(size_t n) { return malloc(n); }
void *events_realloc(void *p, size_t n) { return realloc(p, n); }
void *events_calloc(size_t c, size_t n) { return vp_block(c * n, 1); }
void events_free(void *p) { }
#elif !defined(VP_OWN_ALLOC)
void *events_malloc(size_t n) { return malloc(n); }
void *events_calloc(size_t c, size_t n) { return calloc(c, n); }
void *events_realloc(void *p, size_t n) { return realloc(p, n); }
void events_free(void *p) { free(p); }
#endif
#ifndef VP_OWN_DEFER
int vp_defers;
bool defer_free(void *p) { vp_defers++; return p != 0; }
int deferred(func_t fn, void *p, bool is_ptr) { vp_defers++; return vp_defers; }
#endif
#ifndef VP_OWN_SYS
size_t thrd_cpu_count(void) { return VP_CPUS; }
sys_events_t sys_event;
#endif
#ifndef VP_OWN_SCOPE
static ex_memory_t vp_scope[1];
ex_memory_t *scope_local(void) { return vp_scope; }
#endif
/* a raised exception ends the run of the code under test; harnesses that expect one set vp_may_throw */
int vp_may_throw, vp_threw;
#ifndef VP_OWN_THROW
#ifdef VP_CBMC
#define VP_STOP() __CPROVER_assume(0)
#else
void _exit(int);
#define VP_STOP() _exit(0)
#endif
const char EX_NAME(_panic)[] = "panic", EX_NAME(logic_error)[] = "logic_error";
void ex_throw(const char *a, const char *b, int c, const char *d, const char *e, ex_backtrace_t *f) {
	VP_ASSERT(vp_may_throw, "no exception is raised on a valid call");
	vp_threw = 1;
	VP_STOP();
}
#endif
#endif
