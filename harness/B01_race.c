//@ sources: events
//@ hook: steps.h
//@ stub: deque_resize
//@ flags: --object-bits 12
//@ unwind: 7
//@ quick: -DPRE=1 timeout=300
//@ thorough: -DPRE=1 timeout=840
//@ variants: -DSIZE=8 -DBUDGET=2 -DDEPTH=1 -DTAKE=0 -DOPS=4; -DSIZE=8 -DBUDGET=2 -DDEPTH=1 -DTAKE=1 -DOPS=3; -DSIZE=8 -DBUDGET=2 -DDEPTH=2 -DTAKE=0 -DOPS=1
//@ bounds: a queue with room to spare; PRE entries put in it, then OPS operations (push, take by the owner, steal by any thread), interrupted at any atomic access by up to BUDGET other operations that run to completion, nested to depth DEPTH
#include "deque_ops.h"
void deque_resize(events_deque_t *q) { VP_ASSERT(0, "a queue with room does not grow"); }
