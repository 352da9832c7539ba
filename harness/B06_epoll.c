//@ sources: events
//@ includes: epoll
//@ env: epoll_ctl epoll_wait read
//@ shrink: EVENTS_TIMEOUT_VEC_SIZE=8
//@ cut: guard_set wait_cb inotify_task
//@ stub: async_task
//@ unwind: 5
//@ quick: timeout=250
//@ thorough: timeout=800
//@ variants: -DACT=0 -DOPS=3 ; -DACT=1 -DOPS=1 ; -DACT=2 -DOPS=1 ; -DACT=3 -DOPS=1
//@ vacuity: first
//@ bounds: two descriptors, OPS registrations, changes of interest, removals or loop runs in any order, any interest, any readiness the kernel may report in any order; the callbacks change or remove the other descriptor; then one more loop run
#include "events_internal.h"
#include <stdlib.h>
#include "vp.h"
#ifndef VP_CBMC
#define epoll_ctl vpenv_epoll_ctl
#define epoll_wait vpenv_epoll_wait
#endif
#undef read
#ifndef VP_CBMC
#define read vpenv_read
#endif
#define EP 9
#define F0 3
#include "epoll.c"
static events_epoll block;
static short tmem[3 * EVENTS_TIMEOUT_VEC_SIZE];
static events_fd_t fds[F0 + 2];
static events_t *L;
static int want[2], reg[2], kern[2], kmask[2], ready[2], due[2], err[2], called[2], arg[2], polling;
uint32_t async_task(param_func_t fn, uint32_t n, ...) { VP_ASSERT(0, "no task is started for a plain descriptor"); return 0; }
/* the kernel's side */
ssize_t read(int fd, void *b, size_t n) { VP_ASSERT(0, "the loop leaves a plain descriptor's data alone"); return -1; }
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
	int w = fd - F0;
	VP_ASSERT(ep == EP && w >= 0 && w < 2, "only registered descriptors reach the kernel");
	if (op == EPOLL_CTL_ADD) {
		if (kern[w]) { errno = EEXIST; return -1; }
		kern[w] = 1;
	} else if (!kern[w]) { errno = ENOENT; return -1; }
	if (op == EPOLL_CTL_DEL) { kern[w] = 0; kmask[w] = 0; return 0; }
	kmask[w] = ev->events;
	VP_ASSERT(ev->data.fd == fd, "an event leads back to its descriptor");
	return 0;
}
int epoll_wait(int ep, struct epoll_event *ev, int max, int ms) {
	int n = 0, w, first = vp_bool();
	unsigned e[2];
	VP_ASSERT(ep == EP && max >= 2 && ms == 0, "the kernel is asked as the caller said");
	for (w = 0; w < 2; w++) {
		e[w] = kern[w] ? ready[w] & (kmask[w] | EPOLLHUP | EPOLLERR) : 0;
		due[w] = 0;
		if (e[w] && reg[w]) {
			due[w] = ((e[w] & EPOLLIN) ? EVENTS_READ : 0) | ((e[w] & EPOLLOUT) ? EVENTS_WRITE : 0) | ((e[w] & EPOLLHUP) ? EVENTS_CLOSED : 0);
			err[w] = (e[w] & EPOLLERR) != 0;
			if (err[w]) due[w] |= want[w];
		}
	}
	if (e[0] && (!e[1] || !first)) { ev[0].events = e[0]; ev[0].data.fd = F0; n = 1; }
	else if (e[1]) { ev[0].events = e[1]; ev[0].data.fd = F0 + 1; n = 1; }
	if (e[0] && e[1]) {
		if (first) { ev[1].events = e[0]; ev[1].data.fd = F0; }
		else { ev[1].events = e[1]; ev[1].data.fd = F0 + 1; }
		n = 2;
	}
	return n;
}
static void cb(fds_t fd, int ev, void *a);
static void add(int w, int m) {
	if (w) VP_ASSERT(events_add(L, F0 + 1, m, 0, cb, &arg[1]) == 0, "a descriptor is accepted");
	else VP_ASSERT(events_add(L, F0, m, 0, cb, &arg[0]) == 0, "a descriptor is accepted");
}
static void op_add(int w, int m) {
	/* a descriptor is taken up again only after it was removed */
	if (reg[w]) return;
	/* the constants stay constants: a signal is registered in quite another way */
	if (m == 1) add(w, 1); else if (m == 2) add(w, 2); else add(w, 3);
	reg[w] = 1; want[w] = m; due[w] = 0;
}
static void op_set(int w, int m) {
	if (!reg[w]) return;
	if (w) events_set_event(F0 + 1, m); else events_set_event(F0, m);
	want[w] = m;
	if (due[w] && err[w]) due[w] |= m;
}
static void op_del(int w) {
	if (!reg[w]) return;
	VP_ASSERT((w ? events_del(F0 + 1) : events_del(F0)) == 0, "a registered descriptor can be removed");
	reg[w] = 0; want[w] = 0; due[w] = 0;
}
static void cb(fds_t fd, int ev, void *a) {
	int w = fd - F0;
	VP_ASSERT(polling && w >= 0 && w < 2, "callbacks run inside a loop run, for a known descriptor");
	VP_ASSERT(reg[w], "a removed descriptor is not reported");
	VP_ASSERT(a == &arg[w], "the callback gets its own argument");
	VP_ASSERT((ev == due[w] || err[w] && (ev & ~due[w]) == 0 && (ev & want[w])) && !called[w], "what is ready is reported once, and nothing else");
	called[w] = 1;
	if (vp_bool()) {
#if ACT == 1
	op_set(!w, vp_range(1, 3));
#elif ACT == 2
	op_del(!w);
#elif ACT == 3
	op_del(w); if (vp_bool()) op_add(w, vp_range(1, 3));
#endif
	}
	due[w] = 0;
}
static void check(void) {
	int w, n = 0;
	for (w = 0; w < 2; w++) {
		n += reg[w];
		if (reg[w]) {
			int m = ((want[w] & EVENTS_READ) ? EPOLLIN : 0) | ((want[w] & EVENTS_WRITE) ? EPOLLOUT : 0);
			VP_ASSERT(want[w] ? kern[w] && kmask[w] == m : !kern[w] || !kmask[w], "the kernel watches exactly what was asked for");
			VP_ASSERT(events_get_event(L, F0 + w) == want[w], "the interest can be read back");
		}
		VP_ASSERT(!events_is_registered(L, F0 + w) == !reg[w], "registration can be read back");
	}
	VP_ASSERT(L->active_descriptors == n, "the loop counts its descriptors");
}
static void poll_once(void) {
	int w;
	for (w = 0; w < 2; w++) {
		static const int how[] = { 0, EPOLLIN, EPOLLOUT, EPOLLIN | EPOLLOUT, EPOLLHUP, EPOLLIN | EPOLLHUP, EPOLLERR };
		ready[w] = how[vp_range(0, 6)];
		called[w] = 0;
	}
	polling = 1;
	VP_ASSERT(events_poll_once_internal(L, 0) == 0, "a loop run succeeds");
	polling = 0;
	for (w = 0; w < 2; w++) {
		VP_ASSERT(!due[w], "whatever is ready is reported in the same run");
	}
	check();
}
void harness(void) {
	int i, w;
	sys_event.max_fd = F0 + 2; sys_event.timeout_vec_size = 1; sys_event.timeout_vec_of_vec_size = 1;
	atomic_init(&sys_event.fds, fds);
	atomic_init(&sys_event.num_loops, 1);
	L = &block.loop;
	block.epfd = EP;
	L->loop_id = 1;
	L->timeout.vec_of_vec = tmem; L->timeout.vec = tmem + EVENTS_TIMEOUT_VEC_SIZE; L->timeout.resolution = 1;
	op_add(0, vp_range(1, 3));
	if (ACT) op_add(1, vp_range(1, 3));
	for (i = 0; i < OPS; i++) {
		w = vp_bool();
		switch (vp_range(0, 3)) {
		case 0: op_add(w, vp_range(1, 3)); break;
		case 1: op_set(w, vp_range(0, 3)); break;
		case 2: op_del(w); break;
		case 3: poll_once(); break;
		}
		check();
	}
	poll_once();
	if (called[0] && called[1]) VP_REACH(1);
	if (called[1] && !reg[0]) VP_REACH(2);
}
