From a2b19b89b6057f5cbea08bc2ef2f5506d609952c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 01/25] fix: trim() read and wrote before an empty or all-blank
 text

---
 src/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index cc0ff10..63c3fdc 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -793,8 +793,8 @@ static EVENTS_INLINE char *ltrim(char *s) {
 
 static EVENTS_INLINE char *rtrim(char *s) {
 	char *back = s + strlen(s);
-	while (isspace(*--back));
-	*(back + 1) = '\0';
+	while (back > s && isspace(*(back - 1))) back--;
+	*back = '\0';
 	return s;
 }
 
-- 
2.43.0


From caf0166c5c3c900591afbab395b8c5d67022378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 02/25] fix: str_itoa() lost the sign and the upper half of
 64-bit numbers

---
 src/arrays.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 63c3fdc..f101653 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1601,32 +1601,28 @@ char *str_itoa(int64_t x) {
 	bool neg = x < 0;
 	*buf = '-'; // Always write
 	buf += neg; // But advance only if negative
-#if defined(__APPLE__) || defined(__MACH__)
-	x = llabs(x);
-#else
-	x = abs(x);
-#endif
+	uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x;
 
 	char tmp[20];
 	char *p = tmp + 20;
 
-	while (x >= 100) {
+	while (u >= 100) {
 		p -= 2;
-		utoa2p_ex(x % 100, p);
-		x /= 100;
+		utoa2p_ex(u % 100, p);
+		u /= 100;
 	}
 
 	p -= 2;
-	utoa2p_ex(x, p);
+	utoa2p_ex(u, p);
 
-	p += x < 10;
+	p += u < 10;
 
 	uint32_t len = tmp + 20 - p;
 
-	memcpy(buf, p, 20);
+	memcpy(buf, p, len);
 	buf[len] = '\0';
 
-	return buf;
+	return buf - neg;
 #endif
 }
 
-- 
2.43.0


From 329d639d2a66020a3b6ec7b5e7da4ea9b7e9a6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 03/25] fix: parse_uri_ex() leaked rejected and scheme-less
 URLs

---
 src/arrays.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index f101653..91c86da 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1217,7 +1217,7 @@ static EVENTS_INLINE char *uri_dup(const void *src, size_t len) {
 
 void uri_free(uri_t *uri) {
 	if ((data_type(uri) > DATA_GENERATOR && data_type(uri) < DATA_WATCH)
-		|| (data_type(uri) == -DATA_MAXCOUNTER) && uri->is_rejected) {
+		|| data_type(uri) == -DATA_MAXCOUNTER) {
 		if (uri->is_autofreeable)
 			return;
 
@@ -1518,9 +1518,13 @@ uri_t *parse_uri_ex(const char *str) {
 		return null;
 
 	uri_t *uri = uri_parse_ex(str, strlen(str), false);
+	if (is_empty(uri))
+		return null;
+
 	if (uri->is_rejected || is_empty(uri->host)
 		|| (!str_has(uri->host, ".") && !str_is(uri->host, events_hostname()))) {
 		errno = EINVAL;
+		uri->type = -DATA_MAXCOUNTER;
 		uri_free(uri);
 		return null;
 	}
-- 
2.43.0


From 2f24df8543e4d4212d18b5f4bf1c3e8d62079d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 04/25] fix: a timeout callback that cancelled, reset or
 removed another due timeout was ignored

---
 src/events.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index f988d59..6c970e9 100644
--- a/src/events.c
+++ b/src/events.c
@@ -789,11 +789,12 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 				for (j = i * EVENTS_SHORT_BITS; vv != 0; j++, vv <<= 1) {
 					if (vv < 0) {
 						short v = vec[j];
-						assert(v != 0);
 						for (k = j * EVENTS_SHORT_BITS; v != 0; k++, v <<= 1) {
 							if (v < 0) {
 								events_fd_t *fd = events_target(k);
-								assert(fd->loop_id == loop->loop_id);
+								/* an earlier callback of this slot might have removed, cancelled, or reset the timeout */
+								if (fd->loop_id != loop->loop_id || fd->timeout_idx != loop->timeout.base_idx)
+									continue;
 								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 								events_id_t loop_id = loop->loop_id;
 								(*fd->callback)(k, EVENTS_TIMEOUT, fd->cb_arg);
-- 
2.43.0


From 8a12b6a78553132447892c21c119540e12e02da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 05/25] fix: deque_take() on a queue nothing was pushed to yet
 broke the queue

---
 src/deque.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 94daaf3..6512a85 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -21,8 +21,9 @@ static bool deque_thread_set = false;
  * Programming Parallel Applications in Cilk
  */
 void deque_init(events_deque_t *q, int size_hint) {
-	atomic_init(&q->top, 0);
-	atomic_init(&q->bottom, 0);
+	/* `bottom` goes one below `top` while taking from an empty queue, so neither can start at zero */
+	atomic_init(&q->top, 1);
+	atomic_init(&q->bottom, 1);
 	atomic_init(&q->available, 0);
 	deque_array_t *a = events_calloc(1, _mem_align_up((sizeof(deque_array_t) + sizeof(tasks_t *) * size_hint), 2));
 	if (a == NULL)
-- 
2.43.0


From 11ecca48d5f64d60a24e6e408aa912feca645009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 06/25] fix: deque_resize() released the array a thief could be
 reading from

---
 src/deque.c           | 15 +++++++++------
 src/events_internal.h |  4 +++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 6512a85..fc92dad 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -50,6 +50,7 @@ void deque_resize(events_deque_t *q) {
 	if (new == NULL)
 		abort();
 
+	new->prev = a;
 	atomic_init(&new->size, new_size);
 	size_t i, t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	size_t b = atomic_load_explicit(&q->bottom, memory_order_relaxed);
@@ -65,13 +66,12 @@ void deque_resize(events_deque_t *q) {
 	 *
 	 * In our context, the responsible deallocation of *a cannot occur at this
 	 * point, as another thread could potentially be in the process of reading
-	 * from it. Thus, we opt to abstain from freeing *a in this context,
-	 * resulting in memory leakage. It is worth noting that our expansion
+	 * from it. Thus, we opt to abstain from freeing *a in this context, it's
+	 * kept until `deque_free`. It is worth noting that our expansion
 	 * strategy for these queues involves consistent doubling of their size;
-	 * this design choice ensures that any leaked memory remains bounded by the
+	 * this design choice ensures that any kept memory remains bounded by the
 	 * memory actively employed by the functional queues.
 	 */
-	events_free(a);
 }
 
 tasks_t *deque_take(events_deque_t *q) {
@@ -133,12 +133,15 @@ tasks_t *deque_steal(events_deque_t *q) {
 }
 
 void deque_free(events_deque_t *q) {
-	deque_array_t *a = NULL;
+	deque_array_t *a = NULL, *prev = NULL;
 	if (q != NULL) {
 		a = atomic_get(deque_array_t *, &q->array);
 		if (a != NULL) {
 			atomic_store(&q->array, NULL);
-			events_free((void *)a);
+			do {
+				prev = a->prev;
+				events_free((void *)a);
+			} while ((a = prev) != NULL);
 		}
 
 		memset(q, 0, sizeof(*q));
diff --git a/src/events_internal.h b/src/events_internal.h
index 8c55633..e3d809f 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -148,7 +148,9 @@ enum {
 typedef char events_cacheline_t[__ATOMIC_CACHE_LINE];
 
 make_atomic(tasks_t *, atomic_tasks_t)
-typedef struct {
+typedef struct deque_array_s {
+	/* the array this one replaced, a thief could still be reading from it */
+	struct deque_array_s *prev;
 	atomic_size_t size;
 	atomic_tasks_t buffer[];
 } deque_array_t;
-- 
2.43.0


From 1f2232bcb4dd01860f4723432b4cd207e7377dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 07/25] fix: deque_take() could return an entry two thieves
 already had

---
 src/deque.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index fc92dad..57b084b 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -75,11 +75,12 @@ void deque_resize(events_deque_t *q) {
 }
 
 tasks_t *deque_take(events_deque_t *q) {
-	size_t b = atomic_load_explicit(&q->bottom, memory_order_relaxed) - 1;
-	size_t t = atomic_load_explicit(&q->top, memory_order_relaxed);
+	size_t t, b = atomic_load_explicit(&q->bottom, memory_order_relaxed) - 1;
 	deque_array_t *a = (deque_array_t *)atomic_load_explicit(&q->array, memory_order_relaxed);
 	atomic_store_explicit(&q->bottom, b, memory_order_relaxed);
 	atomic_thread_fence(memory_order_seq_cst);
+	/* only what's read after `bottom` was lowered tells how far the thieves are */
+	t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	tasks_t *x;
 	if (t <= b) {
 		/* Non-empty queue */
-- 
2.43.0


From bfb3e73b7b5840146c44fd9ed0ab3541362d15fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 08/25] fix: a path watcher was never registered with epoll and
 reported nothing

---
 src/epoll.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/epoll.c b/src/epoll.c
index 09a33f0..9b80d1e 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -94,6 +94,10 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	struct epoll_event ev;
 	int epoll_ret;
 
+	/* a path watcher is told about by its descriptor becoming readable */
+	if ((event & EVENTS_PATHWATCH) != 0)
+		event |= EVENTS_READ;
+
 	memset(&ev, 0, sizeof(ev));
 	assert(EVENTS_FD_BELONGS_TO_LOOP(&loop->loop, fd));
 
-- 
2.43.0


From 6391ca9e84054895433480a63c87284b6e78ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 09/25] fix: a descriptor with only an error condition was
 never reported

---
 src/epoll.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index 9b80d1e..e71e0a9 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -166,7 +166,9 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 			&& (target->events & EVENTS_READWRITE) != 0) {
 			int revents = ((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
 				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)
-				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
+				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0)
+				/* an error alone, the reader of a full pipe is gone, ends the wait too */
+				| ((event->events & EPOLLERR) != 0 ? (target->events & EVENTS_READWRITE) : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
 				if (!is_empty(buffer)) {
-- 
2.43.0


From 283c4731efad15d0dda124a1c0eb1e0d5ef913d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 10/25] fix: an actor delayed by more than 2147 ms was called
 at once

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 6c970e9..b204eb3 100644
--- a/src/events.c
+++ b/src/events.c
@@ -890,7 +890,7 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		: timeout;
 
 	if (actor_running != NULL) {
-		when = (size_t)(events_nsec() + ms * 1000000);
+		when = (size_t)(events_nsec() + (uint64_t)ms * 1000000);
 		for (t = loop->timers->head; t != NULL && t->alarmtime < when; t = t->next)
 			;
 
-- 
2.43.0


From b7643b99b2f2a6211ac51ce960d1980169a5006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 11/25] fix: an actor that had repeated once was never released
 by just returning

---
 src/events.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/events.c b/src/events.c
index b204eb3..038aa2f 100644
--- a/src/events.c
+++ b/src/events.c
@@ -964,6 +964,8 @@ static int events_execute(events_t *loop, int max_wait) {
 	l = loop->timers;
 	while ((t = l->head) && now >= t->alarmtime) {
 		dequeue(l, t);
+		/* set again if the callback asks for another round */
+		t->repeating = 0;
 		t->actor(t, t->args);
 		if (!t->repeating) {
 			events_free(t);
-- 
2.43.0


From 50dc9a89b44234723dd6d48685df6120ce963103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 12/25] fix: an array that outgrew its storage left its owner
 with the freed one

data_append(), data_append_item() and data_reserve() reallocate, and the new
address was dropped, so the 65th element of an array() (or the first beyond a
range()) was written to freed memory. They return the array now, and the
$append and $reserve macros assign it.
---
 include/arrays.h | 27 ++++++++++++++-------------
 src/arrays.c     | 14 +++++++++-----
 src/async_tls.c  |  2 +-
 src/events.c     |  2 ++
 4 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/include/arrays.h b/include/arrays.h
index 9463abe..408508b 100644
--- a/include/arrays.h
+++ b/include/arrays.h
@@ -199,10 +199,11 @@ C_API array_t array(void);
 C_API array_t arrays(size_t, ...);
 C_API array_t data_ex(size_t, va_list);
 C_API array_t data_copy(array_t des, array_t src);
-C_API void data_append(array_t, void *);
+/* Growing may move the `array`, use returned address, the `$append` macros do. */
+C_API array_t data_append(array_t, void *);
 C_API values_t data_pop(array_t arr);
 C_API values_t data_shift(array_t arr);
-C_API void data_append_item(array_t arr, ...);
+C_API array_t data_append_item(array_t arr, ...);
 C_API void data_delete(array_t);
 C_API void data_remove(array_t, size_t);
 
@@ -212,7 +213,7 @@ C_API tuple_t data_tuple(array_t);
 C_API array_t data_reset(array_t);
 C_API size_t data_size(array_t);
 C_API size_t data_capacity(array_t);
-C_API void data_reserve(array_t, size_t);
+C_API array_t data_reserve(array_t, size_t);
 C_API atomic_spinlock *data_lock(array_t);
 C_API size_t data_queue_size(void);
 C_API data_types data_type(void *self);
@@ -248,15 +249,15 @@ C_API range_t range_char(const char *text);
 #ifndef $append
 /* Collect references for global cleanup. */
 #define $gc(ptr) 						data_gc((void *)ptr)
-#define $append(arr, value) 			data_append((array_t)arr, (void *)value)
-#define $append_double(arr, value) 		data_append_item((array_t)arr, DATA_DOUBLE, (double)value)
-#define $append_unsigned(arr, value)	data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value)
-#define $append_signed(arr, value) 		data_append_item((array_t)arr, DATA_LLONG, (int64_t)value)
-#define $append_string(arr, value) 		data_append_item((array_t)arr, DATA_STRING, (char *)value)
-#define $append_func(arr, value) 		data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value)
-#define $append_char(arr, value) 		data_append_item((array_t)arr, DATA_CHAR, (char)value)
-#define $append_bool(arr, value) 		data_append_item((array_t)arr, DATA_BOOL, (bool)value)
-#define $append_short(arr, value) 		data_append_item((array_t)arr, DATA_SHORT, (short)value)
+#define $append(arr, value) 			((arr) = data_append((array_t)(arr), (void *)value))
+#define $append_double(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_DOUBLE, (double)value))
+#define $append_unsigned(arr, value)	((arr) = data_append_item((array_t)(arr), DATA_MAXSIZE, (size_t)value))
+#define $append_signed(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_LLONG, (int64_t)value))
+#define $append_string(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_STRING, (char *)value))
+#define $append_func(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_FUNC, (data_func_t)value))
+#define $append_char(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_CHAR, (char)value))
+#define $append_bool(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_BOOL, (bool)value))
+#define $append_short(arr, value) 		((arr) = data_append_item((array_t)(arr), DATA_SHORT, (short)value))
 #define $copy(des, src) 				data_copy((array_t)des, (array_t)src)
 #define $remove(arr, index) 			data_remove((array_t)arr, index)
 #define $pop(arr) 						data_pop((array_t)arr)
@@ -267,7 +268,7 @@ C_API range_t range_char(const char *text);
 #define $delete(arr) 					data_delete((array_t)arr)
 #define $capacity(arr) 					data_capacity((array_t)arr)
 #define $lock(arr) 						data_lock((array_t)arr)
-#define $reserve(arr, cap)				data_reserve((array_t)arr, (size_t)cap)
+#define $reserve(arr, cap)				((arr) = data_reserve((array_t)(arr), (size_t)cap))
 #endif
 
 #define trim_at(str, pos) (char *)((uintptr_t)(str) + (pos))
diff --git a/src/arrays.c b/src/arrays.c
index 91c86da..ca3212b 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -124,9 +124,11 @@ EVENTS_INLINE atomic_spinlock *data_lock(array_t v) {
 	return &array_mutex(v);
 }
 
-EVENTS_INLINE void data_reserve(array_t v, size_t capacity) {
+EVENTS_INLINE array_t data_reserve(array_t v, size_t capacity) {
 	if (v && capacity)
 		array_reserve(v, capacity);
+
+	return v;
 }
 
 EVENTS_INLINE void data_remove(array_t arr, size_t i) {
@@ -150,18 +152,19 @@ EVENTS_INLINE void data_delete(array_t arr) {
 	}
 }
 
-EVENTS_INLINE void data_append(array_t arr, void *value) {
+EVENTS_INLINE array_t data_append(array_t arr, void *value) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
 	size_t size, cv_cap__ = array_cap(arr);
 	if (cv_cap__ <= array_length(arr)) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : data_queue_size();
 		array_grow(arr, size);
 	}
 
 	arr[array_length(arr)].object = value;
 	array_set_size(arr, array_length(arr) + 1);
+	return arr;
 }
 
 EVENTS_INLINE values_t data_pop(array_t arr) {
@@ -194,7 +197,7 @@ EVENTS_INLINE values_t data_shift(array_t arr) {
 	return data_values_empty->value;
 }
 
-void data_append_item(array_t arr, ...) {
+array_t data_append_item(array_t arr, ...) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
@@ -202,7 +205,7 @@ void data_append_item(array_t arr, ...) {
 	data_types n = DATA_INVALID;
 	size_t size, cv_cap__ = array_cap(arr), index = array_length(arr);
 	if (cv_cap__ <= index) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : data_queue_size();
 		array_grow(arr, size);
 	}
 
@@ -229,6 +232,7 @@ void data_append_item(array_t arr, ...) {
 	}
 	va_end(ap);
 	array_set_size(arr, index + 1);
+	return arr;
 }
 
 EVENTS_INLINE array_t data_copy(array_t des, array_t src) {
diff --git a/src/async_tls.c b/src/async_tls.c
index 670714e..5da1be1 100644
--- a/src/async_tls.c
+++ b/src/async_tls.c
@@ -422,7 +422,7 @@ static array_t thrd_return(array_t args, size_t numof, ...) {
 		$reset(args);
 		va_start(ap, numof);
 		for (i = 0; i < numof; i++)
-			data_append(args, va_arg(ap, void *));
+			$append(args, va_arg(ap, void *));
 		va_end(ap);
 
 		return args;
diff --git a/src/events.c b/src/events.c
index 038aa2f..38b7180 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2213,6 +2213,8 @@ array_t waitfor(waitgroup_t wg) {
 		t->group_active = false;
 		t->group_finish = true;
 		wgr = array();
+		/* shared between threads, must not move */
+		$reserve(wgr, $size(wg->group));
 		wg->results = wgr;
 		tasks_poster(wg);
 		foreach(co in wg->group) {
-- 
2.43.0


From 9fff60c73f7df9e81f10c8cafa4aac1f72587b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:09 +0000
Subject: [PATCH 13/25] fix: range() with a stop below its start overflowed the
 array's storage

The storage was shrunk below its own header; rangeing() stepped past INT_MAX.
---
 src/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index ca3212b..4d196db 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -76,7 +76,7 @@ const data_values_t data_values_empty[1] = {0};
 
 range_t rangeing(int start, int stop, int steps) {
 	range_t arr = array();
-	int i, n = stop - start;
+	int64_t i;
 	size_t cv_sz___;
 	for (i = start; i < stop; i = i + steps)
 		$append(arr, (intptr_t)i);
@@ -90,7 +90,7 @@ range_t rangeing(int start, int stop, int steps) {
 
 range_t range(int start, int stop) {
 	range_t arr = array();
-	int i, n = stop - start;
+	int64_t i, n = stop > start ? (int64_t)stop - start : 0;
 	array_grow((arr), (n + 1));
 	for (i = start; i < stop; i++)
 		$append(arr, (intptr_t)i);
-- 
2.43.0


From 362801886230f4d6a6a4556b742ae76d1fa89668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:11 +0000
Subject: [PATCH 14/25] fix: asking a generator for its first value lost the
 task created after it

yielded() appended the generator to the run queue a second time, unlinking
everything queued behind it.
---
 src/events.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index 38b7180..ed21520 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1626,12 +1626,8 @@ values_t yielded(generator_t gen) {
 	if (data_type(gen) != DATA_GENERATOR)
 		return data_values_empty->value;
 
+	/* the generator is in `run queue` already, since its creation */
 	while (!gen->is_ready && !gen->context->halt) {
-		if (gen->context->status == TASK_SUSPENDED) {
-			tasklist_t *l = __thrd()->run_queue;
-			enqueue(l, gen->context);
-		}
-
 		active_info();
 		yield();
 	}
-- 
2.43.0


From dafdaf5ee4f87b1d1272f55bd31b6d023db76319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 15/25] fix: threads serving a wait group only waited for their
 last task

__thrd_waitfor() looked at the variable of the previous loop, so the other
tasks of that thread were dropped from the group while still running and the
last one was deleted repeatedly.
---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index ed21520..2180031 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2165,7 +2165,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 	yield();
 	while ($size(q->jobs) > 0) {
 		foreach(group in q->jobs) {
-			co = (tasks_t *)task.object;
+			co = (tasks_t *)group.object;
 			if (task_is_terminated(co)) {
 				$remove(q->jobs, igroup);
 				if (co->results != NULL)
-- 
2.43.0


From 1e7e06b8f50e65e6b8399867a6f5fe61060ed88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:20 +0000
Subject: [PATCH 16/25] fix: a wait group given fewer tasks than announced
 crashed

tasks_poster() popped its capacity's share of tasks whether there or not.
---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 2180031..c99b042 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2026,7 +2026,7 @@ static void tasks_poster(waitgroup_t wg) {
 			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
-				for (c = 0; c < wg->capacity; c++) {
+				for (c = 0; c < wg->capacity && $size(wg->group) > 0; c++) {
 					tasks_t *t = (tasks_t *)$pop(wg->group).object;
 					t->tid = k;
 					$append(q->jobs, t);
-- 
2.43.0


From f9c5a172e0e65c8d679dd58f068470128197cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 17/25] fix: sleeping tasks never woke while other tasks kept
 yielding

---
 src/events.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index c99b042..e37c044 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1315,8 +1315,7 @@ static void *task_wait_system(void *v) {
 		__thrd()->active_timer++;
 #endif
 		/* let everyone else run */
-		while (task_yielding_active() > 0)
-			;
+		task_yielding_active();
 #ifdef _WIN32
 		__thrd()->active_timer--;
 #endif
-- 
2.43.0


From 45c39913eedafe8c8fe93294f8bcca79d3f3be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 18/25] fix: a sleeping task kept waking the task that once
 waited for it

---
 src/events.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index e37c044..7b076f0 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1343,10 +1343,10 @@ static void *task_wait_system(void *v) {
 				t->ready = true;
 				enqueue(l, t);
 				if (t->sleeping != NULL) {
-					t = t->sleeping;
-					t->ready = true;
+					tasks_t *waiter = t->sleeping;
 					t->sleeping = NULL;
-					enqueue(l, t);
+					waiter->ready = true;
+					enqueue(l, waiter);
 				}
 			}
 		}
-- 
2.43.0


From ddce34f2832016980c8af631e0fd7437e84b9a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 19/25] fix: waiting for a group put tasks already in the run
 queue in it again

---
 src/events.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/events.c b/src/events.c
index 7b076f0..6b51137 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2173,9 +2173,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 				co->waiting = false;
 				task_delete(co);
 			} else {
-				if (co->status == TASK_NORMAL) {
-					enqueue(l, co);
-				} else if (co->status == TASK_SLEEPING) {
+				if (co->status == TASK_SLEEPING) {
 					is_sleeping = true;
 					co->sleeping = __thrd()->running;
 					suspend();
@@ -2238,9 +2236,7 @@ array_t waitfor(waitgroup_t wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
+					if (worker->status == TASK_SLEEPING) {
 						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
@@ -2301,9 +2297,7 @@ array_t tasks_wait(task_group_t *wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
+					if (worker->status == TASK_SLEEPING) {
 						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
-- 
2.43.0


From 3a6fb8daf78e5b5c9ff262277583fcc23aa0a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 20/25] fix: a wait for a group took one live task too many off
 the count

---
 src/events.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/events.c b/src/events.c
index 6b51137..9795513 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2144,7 +2144,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 	waitgroup_t wg = q->tasks;
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = wg->results;
-	bool is_sleeping = false;
 	q->tasks = NULL;
 
 	foreach(task in q->jobs) {
@@ -2174,7 +2173,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 				task_delete(co);
 			} else {
 				if (co->status == TASK_SLEEPING) {
-					is_sleeping = true;
 					co->sleeping = __thrd()->running;
 					suspend();
 				}
@@ -2186,7 +2184,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 		igroup = 0;
 	}
 
-	__thrd()->task_count--;
 	atomic_lock($lock(wg->group));
 	wg->count--;
 	atomic_unlock($lock(wg->group));
@@ -2201,7 +2198,6 @@ array_t waitfor(waitgroup_t wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2237,7 +2233,6 @@ array_t waitfor(waitgroup_t wg) {
 					task_delete(worker);
 				} else {
 					if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2264,8 +2259,6 @@ array_t waitfor(waitgroup_t wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
@@ -2280,7 +2273,6 @@ array_t tasks_wait(task_group_t *wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && !t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2298,7 +2290,6 @@ array_t tasks_wait(task_group_t *wg) {
 					task_delete(worker);
 				} else {
 					if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2321,8 +2312,6 @@ array_t tasks_wait(task_group_t *wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
-- 
2.43.0


From 1eab292aaafd39029808d3a7e311cdfc94bf11c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 21/25] fix: a delay over 4 s reported a wrong elapsed time

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 9795513..acec2be 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1393,7 +1393,7 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	add_timeout(__thrd()->running, __thrd()->running, ms, now);
 	task_switch(__thrd()->current_handle);
 
-	return (uint32_t)(events_nsec() - now) / 1000000;
+	return (uint32_t)((events_nsec() - now) / 1000000);
 }
 
 static void wait_cb(fds_t fd, int event, void *arg) {
-- 
2.43.0


From 10c73a41919682fb7720165518da3612cbc8aea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:31 +0000
Subject: [PATCH 22/25] fix: a generator's last value was lost, or freed memory
 read, once it had ended

---
 src/events.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index acec2be..30f6774 100644
--- a/src/events.c
+++ b/src/events.c
@@ -311,6 +311,8 @@ EVENTS_INLINE void events_deinit(void) {
 					DeleteFiber(((tasks_t *)t.object)->type->fiber);
 #endif
 					((tasks_t *)t.object)->magic_number = DATA_INVALID;
+					if (((tasks_t *)t.object)->is_generator)
+						events_free(((tasks_t *)t.object)->generator);
 					events_free((tasks_t *)t.object);
 				}
 			}
@@ -1089,7 +1091,8 @@ void task_delete(tasks_t *co) {
 		|| co->status == TASK_FINISH)) {
 		co->err_code = TASK_ERRED;
 	} else {
-		if (co->magic_number == TASK_MAGIC_NUMBER) {
+		/* a `referenced` task is left to the shutdown */
+		if (co->magic_number == TASK_MAGIC_NUMBER && !co->referenced) {
 			co->magic_number = TASK_ERRED;
 			co->garbage = NULL;
 			co->user_data = NULL;
@@ -1599,8 +1602,8 @@ generator_t generator(param_func_t fn, size_t num_of, ...) {
 			gen->type = DATA_GENERATOR;
 			t->generator = gen;
 			t->is_generator = true;
-			t->garbage = array();
-			$append(t->garbage, gen);
+			/* both might still be asked for after its end, kept until shutdown */
+			t->referenced = true;
 		}
 	}
 
-- 
2.43.0


From 385d83c1b1759b279470cf637e2e8d2d92fde778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:01 +0000
Subject: [PATCH 23/25] fix: threads handing tasks to the same thread at once
 lost tasks

enqueue_tasks() gave up the lock before pushing, and a push is only safe from
one thread at a time: two threads that start tasks meanwhile wrote the same
slot, so that one of the tasks never ran and another was run instead of it.
---
 src/events.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 30f6774..dee249b 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2468,8 +2468,9 @@ static void enqueue_tasks(tasks_t *t) {
 	atomic_thread_fence(memory_order_seq_cst);
 	atomic_lock(&sys_event.lock);
 	events_deque_t *queue = sys_event.local[t->tid];
-	atomic_unlock(&sys_event.lock);
+	/* any thread can hand a task over, but only one at a time may push */
 	deque_push(queue, t);
+	atomic_unlock(&sys_event.lock);
 	atomic_fetch_add(&queue->available, 1);
 }
 
-- 
2.43.0


From 545084b9be42c5c74ad81a7595d0c903f45ec0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:39 +0000
Subject: [PATCH 24/25] fix: a promise used again could report half of its
 earlier result

Only the low 32 bits of the result were cleared, so a job without a result
left the upper half of the address or number the job before it had returned.
---
 src/future.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index d291fc5..94ee014 100644
--- a/src/future.c
+++ b/src/future.c
@@ -270,7 +270,7 @@ promise *alloc_promise(void) {
 	if (!is_empty(f = (promise *)events_malloc(_mem_align_up(sizeof(promise), 2)))) {
 		f->args = null;
 		f->result->is_array = false;
-		f->result->value.integer = 0;
+		f->result->value.object = null;
 		atomic_flag_clear(&f->mutex);
 		atomic_flag_clear(&f->done);
 		f->type = DATA_PROMISE;
@@ -295,7 +295,7 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 			f->args = args;
 			f->func = fn;
 			f->result->extended = null;
-			f->result->value.integer = 0;
+			f->result->value.object = null;
 			f->result->is_array = false;
 			atomic_flag_clear(&f->mutex);
 			atomic_flag_clear(&f->done);
-- 
2.43.0


From e0d49ad2f269d00226abd79c49de81686e8f5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:39 +0000
Subject: [PATCH 25/25] fix: a worker thread released arguments of a job it had
 already handed back

The arguments were released after the promise was set, when whoever waits may
have freed the promise or given it another job: the arguments were released
twice, or those of the next job before it ran.
---
 src/events.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index dee249b..2199ef0 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2630,9 +2630,12 @@ static int __future_wrapper(void *arg) {
 
 			if (worker && worker->func)
 				res->object = worker->func(worker->args);
+			/* once set, whoever waits can release the promise, or give it another job */
+			param_t args = worker->args;
+			worker->args = NULL;
 			promise_set(worker, res->object);
 
-			$delete(worker->args);
+			$delete(args);
 			if (is_data(res->object) && is_empty(scope_local()->local))
 				$delete(res->object);
 
-- 
2.43.0

