from __main__ import prop, NA, AR, EV

prop("B01", "A work-stealing run queue hands out every task exactly once",
     "Every task pushed onto a thread's run queue comes out exactly once, through the owner's take or any thread's steal, whatever operations of other threads interleave and while the queue grows. Undisturbed, a thief gets the oldest task and the owner's take the newest, and neither reports an empty queue while there is a task in it.",
     ["interleavings", "histories"], "every interleaving at atomic accesses of the owner's and thieves' operations within the bounds, including growth",
     "The tests never steal while the owner pushes or takes at a chosen point; the windows are a few instructions wide.",
     ["src/deque.c"], [("owner end", "src/deque.c:deque_push, deque_take"), ("thieves", "src/deque.c:deque_steal"), ("growth", "src/deque.c:deque_resize")],
     note="Queues of up to 16 slots, up to 4 operations with up to 2 interrupting ones at any atomic access.")

prop("B06", "The kernel watches exactly what was asked for, and every report arrives",
     "At any time the loop's epoll set covers exactly the registered descriptors with the interest last asked for, read, write or both, and registration and interest can be queried. In each loop run every registered descriptor the kernel reports, also for a hang-up or an error alone, has its callback called exactly once with its own argument and the conditions reported; a descriptor removed meanwhile, also by another callback of the same run, is not called.",
     ["histories", "inputs"], "every order of registering, changing interest, removing and loop runs within the bounds, any readiness, callbacks that change or remove each other's descriptors",
     "The tests watch one or two descriptors that are only ever readable; error conditions, changed interests and callbacks acting on each other never occur.",
     ["src/epoll.c", EV], [("interest", "src/epoll.c:events_update_internal"), ("dispatch", "src/epoll.c:events_poll_once_internal"), ("registration", EV + ":events_add, events_del, events_set_event")],
     note="Two descriptors on one loop, a modelled kernel with deferred removal.")

prop("B04", "Actors are called once each, when due, in order of their time",
     "An actor started with a delay is called with its own argument exactly once, never before the delay has passed, and each loop run that finds actors due calls the one due first. A callback may ask for another round, which starts a new delay on the same actor, or start further actors; an actor that is not repeated is released exactly once, and the loop counts as active exactly as long as an actor is pending.",
     ["histories", "inputs"], "every set of up to four actors, delays, clock movements and callbacks that repeat, clear or start actors",
     "The tests start ten actors with delays of a few milliseconds and wait; longer delays and repeating once are not tried.",
     [EV], [("start", EV + ":events_actor, events_repeat_actor"), ("dispatch", EV + ":events_execute (through events_once)")],
     note="Up to four actors, three loop runs, delays up to 5 s.")

prop("A09", "An array is an exact sequence however it grows, shrinks and is copied",
     "An array holds exactly the appended elements, of every kind, in order, after any sequence of appending, removing, popping, shifting, resetting and reserving, also beyond its first capacity. Iteration visits every element once in either direction, a copy is equal and independent, and a tuple refuses every change.",
     ["histories", "inputs"], "every sequence of operations within the bounds and any element values",
     "The tests append one element to an array of eight; growth beyond the first allocation never happens.",
     ["src/arrays.c", "include/arrays.h"], [("growth", AR + ":data_append, data_append_item, data_reserve"), ("removal", AR + ":data_remove, data_pop, data_shift")],
     note="First capacity of 4, up to 11 elements.")
prop("A10", "Ranges hold exactly the numbers or characters between their ends",
     "range(start, stop) and rangeing(start, stop, step) hold exactly the numbers from start in steps up to but not including stop, none when stop is not above start, and range_char holds the characters of its text, for any ends and any positive step.",
     ["inputs"], "every pair of ends, every positive step, every text, up to seven elements",
     "The tests build two small ascending ranges.",
     ["src/arrays.c"], [("ranges", AR + ":range, rangeing, range_char")],
     note="Ranges of at most 7 elements.")
prop("B05", "A delayed task resumes exactly once, in order of time, never early",
     "A task that delays itself is not resumed before its delay has passed, whatever other tasks do meanwhile. It is made runnable at the first turn of the sleep system after that, so tasks resume in the order of their due times, each once. The counts of sleeping and of live tasks are exact, and delay() reports the elapsed milliseconds.",
     ["histories", "inputs"], "every sequence of yields and delays of up to three tasks while the clock moves in any steps within the bounds",
     "The tests let tasks sleep a few milliseconds with nothing else running; a busy task, equal times or long delays do not occur.",
     [EV], [("sleep queue", EV + ":add_timeout, delay"), ("wake-up", EV + ":task_wait_system")],
     note="Up to three tasks; the machine's stack exchange is replaced by a scheduler model, see DESIGN.md.")
prop("B09", "Ready tasks run in turn, each exactly as often as it blocked",
     "The tasks of a thread run one at a time in the order they became ready: a task that yields runs again after one turn of each other ready task, newly started tasks come after those already waiting, and a task whose function has returned is never resumed, is released exactly once and is no longer counted as live.",
     ["interleavings", "histories"], "every sequence of yields, starts and returns of up to four tasks within the bounds",
     "The tests check final outputs of a few fixed task sets; a lost or doubled queue entry shows only in particular orders.",
     [EV], [("run queue", EV + ":enqueue, dequeue"), ("scheduling", EV + ":tasks_schedulering, task_yielding, task_push")],
     note="Up to four tasks; the machine's stack exchange is replaced by a scheduler model, see DESIGN.md.")
prop("B10", "Waiting for a task group ends when its tasks have, with every result",
     "tasks_wait() returns once every task started in the group has returned, whether these yielded, slept or returned at once, and never later than that. It gives the numbers of exactly the tasks that returned a value, each once, and each such value can be looked up. The group's tasks are released once and no longer counted as live, while tasks outside the group are left alone.",
     ["interleavings", "histories"], "every mix of yielding, sleeping and returning group tasks, with and without results, within the bounds",
     "The tests wait for one group of tasks that yield in lockstep or return at once.",
     [EV], [("wait", EV + ":tasks_wait"), ("group", EV + ":task_group, task_push, tasks_schedulering")],
     note="Groups of up to four tasks; arrays by their definition (see A09); the machine's stack exchange is replaced by a scheduler model.")
prop("B14", "A generator hands each value over exactly once, in order, then nothing",
     "The values given to yielding() are returned by yielded() exactly once each and in order, however often generator, reader and other tasks run in between: no value is overwritten before it was read, and the last one stays readable after the generator has ended. Reading beyond the end gives the empty value at once, and the generator's own result can be looked up.",
     ["interleavings", "histories"], "every placement of other tasks' turns between generating and reading within the bounds, any values",
     "The test reads one value and the end, with nothing running in between.",
     [EV], [("writing", EV + ":yielding"), ("reading", EV + ":yielded, generator")],
     note="Up to four values; the machine's stack exchange is replaced by a scheduler model.")
prop("A08", "Sorting orders any elements and loses none",
     "memsort() leaves the elements in the order its comparison defines, whatever their number and size, including equal ones: the result is a permutation of the input with every element whole, and no byte beyond the elements is read or written.",
     ["inputs"], "every sequence of elements with any keys within the bounds, elements of 2 to 9 bytes",
     "No test calls it.",
     ["src/arrays.c"], [("sorting", AR + ":memsort")],
     note="Up to eight elements; from eight on, with keys of two values before increasing ones.")
prop("B02", "A task handed to another thread is taken over by it exactly once",
     "Every task handed to a pool thread is taken over by that thread exactly once, marked ready and counted, whichever threads hand tasks over and however their steps interleave with one another and with the thread taking over what is there, also while the queue grows; what the queue announces as available is what is in it.",
     ["interleavings", "histories"], "every interleaving at atomic accesses of handing over by any thread and taking over, within the bounds, including growth",
     "The tests hand over a few tasks from the main thread only, so that no two threads ever hand over at once.",
     [EV, "src/deque.c"], [("handing over", EV + ":enqueue_tasks"), ("taking over", EV + ":task_take"), ("queue", "src/deque.c:deque_push, deque_resize, deque_steal")],
     note="Queues of 2 or 4 entries at first, up to four operations interrupted at any atomic access by up to two others that run to their end.")
prop("B12", "What a task deferred runs exactly once, last first, when it has returned",
     "Everything a task deferred runs exactly once, in reverse order and with its own argument, when the task's function has returned and not before, however tasks take turns meanwhile and whatever other tasks defer; memory left to be released is released once in the same order.",
     ["interleavings", "histories"], "every sequence of deferred actions of every kind with any arguments, and of other tasks' turns, within the bounds",
     "The tests defer one or two actions in a single task.",
     [EV], [("deferring", EV + ":deferred, defer_free"), ("unwinding", EV + ":deferred_unwind, task_awaitable")],
     note="Up to four actions per task, two tasks; arrays by their definition (see A09); the machine's stack exchange is replaced by a scheduler model.")
prop("B07", "A job given to a worker is done once and its result reaches who waits",
     "Every job handed to a worker thread is carried out exactly once with its own arguments. Once it is reported done, the one who waits reads exactly its result, also when an earlier job used the same handle, and may at once release the handle or give it another job: the worker then touches neither the handle nor the next job's arguments, and every job's arguments are released exactly once.",
     ["interleavings", "histories"], "every interleaving, at the worker's atomic accesses, array operations and calls, of handing over, collecting, releasing and using handles again, within the bounds",
     "The tests wait for a job long after it has ended; the worker's last steps never meet the waiter's.",
     [EV, "src/future.c"], [("worker", EV + ":__future_wrapper"), ("handing over", "src/future.c:queue_work, promise_work, enqueue_promise"), ("result", "src/future.c:promise_set, promise_wait, promise_clean")],
     note="One worker, up to three jobs; the task that waits in queue_work_handler is left out.")
