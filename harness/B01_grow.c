//@ sources: events
//@ hook: steps.h
//@ unwind: 7
//@ quick: -DPRE=1 timeout=400
//@ thorough: -DPRE=1 timeout=840
//@ variants: -DSIZE=2 -DBUDGET=0 -DDEPTH=0 -DTAKE=1 -DOPS=4; -DSIZE=1 -DBUDGET=1 -DDEPTH=1 -DTAKE=0 -DOPS=2
//@ thorough-variants: -DSIZE=2 -DBUDGET=0 -DDEPTH=0 -DTAKE=1 -DOPS=5; -DSIZE=1 -DBUDGET=1 -DDEPTH=1 -DTAKE=0 -DOPS=2; -DSIZE=1 -DBUDGET=1 -DDEPTH=1 -DTAKE=1 -DOPS=2
//@ bounds: a queue with room for SIZE entries that has to grow; PRE entries put in it, then OPS operations (push, take by the owner, steal), interrupted at any atomic access by up to BUDGET other operations that run to completion
#include "deque_ops.h"
