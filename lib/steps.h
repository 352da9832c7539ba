/* Force-included after the library's headers: every atomic access first offers the scheduler of
 * the harness, vp_step(), the chance to let another thread run. The access itself is unchanged. */
#ifndef VP_STEPS_H
#define VP_STEPS_H
#include "events_internal.h"
extern void vp_step(void);
extern void vp_lock(void *p);
extern void vp_unlock(void *p);
#undef atomic_load_explicit
#undef atomic_store_explicit
#undef atomic_compare_exchange_strong_explicit
#undef atomic_compare_exchange_weak_explicit
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub_explicit
#undef atomic_exchange_explicit
#undef atomic_lock
#undef atomic_unlock
#define atomic_load_explicit(o, m)	({ vp_step(); __atomic_load_n(o, m); })
#define atomic_store_explicit(o, d, m)	({ vp_step(); __atomic_store_n(o, d, m); })
#define atomic_compare_exchange_strong_explicit(o, e, d, s, f)	({ vp_step(); __atomic_compare_exchange_n(o, e, d, 0, s, f); })
#define atomic_compare_exchange_weak_explicit(o, e, d, s, f)	({ vp_step(); __atomic_compare_exchange_n(o, e, d, 1, s, f); })
#define atomic_fetch_add_explicit(o, v, m)	({ vp_step(); __atomic_fetch_add(o, v, m); })
#define atomic_fetch_sub_explicit(o, v, m)	({ vp_step(); __atomic_fetch_sub(o, v, m); })
#define atomic_exchange_explicit(o, v, m)	({ vp_step(); __atomic_exchange_n(o, v, m); })
#define atomic_lock(p)		vp_lock((void *)(p))
#define atomic_unlock(p)	vp_unlock((void *)(p))
#endif
