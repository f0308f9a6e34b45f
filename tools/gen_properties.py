#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one object per property)."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["include/kelcoro/" + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Work submitted to a live executor runs exactly once on one of its workers",
  "Every coroutine that awaits a jump onto a live worker, strand, task queue or thread pool, and every callable scheduled to one, is executed exactly once, on a worker thread of that executor, with a successful schedule status. No submission is lost, duplicated or left behind while a worker sleeps, however many threads submit at once and whatever the worker is doing. Everything the submitter wrote before submitting is visible to the executed work without any other synchronisation.",
  ["schedules", "inputs"], "all interleavings of concurrent submitters (coroutines, callables, node lists) with sleeping or busy workers, for worker, strand, task_queue and pools of 1-3 threads",
  "The tests submit from many threads but observe one random schedule per run; a lost wake-up between the empty check and the wait, or a missing publication, needs one specific interleaving.",
  ["thread_pool.hpp", "executor_interface.hpp", "operation_hash.hpp"],
  [("queue push with notification, blocking pop of all", "thread_pool.hpp task_queue"), ("worker loop", "thread_pool.hpp default_worker_job"), ("jump awaitable", "executor_interface.hpp / thread_pool.hpp")],
  [("pending list", "submitted and not yet popped work", "task_queue")], ["co_await jump_on", "schedule", "schedule_to", "attach"])

p("C02", "One worker runs its work one at a time in submission order",
  "Work submitted to the same worker, strand or task queue, or to a thread pool under the same operation hash, never runs concurrently and runs in the order in which the submissions happened; a batch handed over as a list keeps its list order. Each piece of work sees all effects of the pieces that ran before it. The same coroutine, and equal operation hashes, always map to the same queue of a pool.",
  ["schedules", "inputs"], "all interleavings of up to three submitters whose submissions are partly ordered, and all small sizes of pool and hash values",
  "Tests only count executions; order and mutual exclusion per queue are never asserted, and reordering shows only when several nodes are pending together.",
  ["thread_pool.hpp", "operation_hash.hpp", "executor_interface.hpp"],
  [("FIFO append at tail", "thread_pool.hpp task_queue::push_list"), ("hash to queue selection", "thread_pool.hpp select_queue")],
  [("first/last", "FIFO of pending nodes", "task_queue")], ["order of execution", "select_queue", "get_strand"])

p("C03", "Executor shutdown resumes every accepted task exactly once and terminates",
  "Destroying a worker or thread pool, or requesting a stop (any number of times, from any threads including its workers) and waiting for it, always terminates. Every task accepted before the shutdown finishes - including tasks attached by tasks that are still running - is resumed exactly once: either normally, or with the cancelled status so that its jump reports failure and a scheduled callable is not invoked. After the shutdown returns nothing of the executor runs any more and no task is left unresumed. The executor may be destroyed as soon as the work given to it has run, even if the thread that submitted the work has not returned from submitting it yet.",
  ["schedules", "histories"], "all interleavings of shutdown (destructor, request_stop x0-2, wait_stop) with running, pending and newly attached tasks on pools of 1-2 workers and on a single worker",
  "test_request_stop samples random schedules of one shutdown protocol and never checks tasks attached across queues during destruction.",
  ["thread_pool.hpp"],
  [("stop markers pushed into each queue", "thread_pool.hpp push_deadpill / destructor"), ("cancellation of the rest of a list", "thread_pool.hpp cancel_tasks")],
  [("dead pill", "marker node after which a worker stops", "thread_pool.hpp")], ["schedule_status", "termination of destructor / wait_stop"])

p("C04", "The lock-free stack neither loses nor duplicates nodes",
  "Under any mix of concurrent pushes, pushes of whole chains and removals of everything, each node pushed is handed out by exactly one removal or is still in the stack at the end. Every removal returns a well formed finite chain in which the nodes of one pusher appear newest first, a pushed chain keeps its order and stays contiguous, and what a pusher wrote into a node before pushing it is visible to whoever removes it.",
  ["schedules"], "all interleavings of 2-3 threads each doing up to 3 operations from push, push of a chain, pop all",
  "No test touches the stack directly; its use through latch and event samples a few schedules and cannot show a lost node deterministically.",
  ["nonowner_lockfree_stack.hpp"],
  [("compare-and-swap loop", "nonowner_lockfree_stack.hpp push / push_stack"), ("exchange with null", "nonowner_lockfree_stack.hpp try_pop_all")],
  [("top", "head of the intrusive list", "nonowner_lockfree_stack.hpp")], ["chains returned by try_pop_all"])

p("C05", "A latch releases every waiter exactly once when its count reaches zero",
  "Every coroutine waiting on a latch, by waiting or by arriving and waiting, is resumed exactly once through the latch's executor, and only after the counter has reached zero; waiting on a latch already at zero goes on at once, without the executor. No schedule of count downs and waits leaves a waiter asleep or touches a waiter's coroutine after it was resumed, even if it then finishes and is destroyed. Everything done before each count down is visible to every released waiter.",
  ["schedules", "inputs"], "all interleavings of up to 3 threads mixing wait, arrive_and_wait(n), count_down(n) with n in 0..2 on inline, pool and recording executors",
  "test_latch and test_latch_waiters sample schedules on an 8-way pool; the window between registering a waiter and re-checking the counter is a few instructions wide.",
  ["latch.hpp", "nonowner_lockfree_stack.hpp"],
  [("register, then re-check the counter", "latch.hpp wait_awaiter"), ("last decrement wakes all", "latch.hpp count_down")],
  [("counter", "remaining count", "latch.hpp"), ("stack", "registered waiters", "latch.hpp")], ["resumption of waiters", "ready"])

p("C06", "An event delivers each notification to each current subscriber exactly once",
  "A notification resumes, through the given executor, every coroutine or callback subscribed before it and not yet notified, exactly once, each with its own copy of the notified value; concurrent notifications never deliver to the same subscription twice and never lose a subscription, which otherwise stays for the next notification. A subscriber that subscribes again while being notified is not notified again by the same notification. If copying the value fails, the notification throws and wakes nobody: all stay subscribed. The call reports true exactly when it woke somebody.",
  ["schedules", "histories"], "all interleavings of up to 3 subscribing/notifying threads and all sequences of subscribe/notify/resubscribe up to depth 5, for void and valued events",
  "The project's only event test (thread_safety) is not even run by its main; it would only compare a total count on a random schedule.",
  ["events.hpp", "nonowner_lockfree_stack.hpp", "executor_interface.hpp"],
  [("take all subscribers, then hand out value and attach", "events.hpp notify_all")],
  [("subscribers", "registered awaiters", "events.hpp event")], ["resumption and value of co_await event", "return value of notify_all"])

p("C07", "Waiting on all or any of several events resumes once with the right inputs",
  "Awaiting all of several events resumes the awaiting coroutine exactly once, after each of them has fired, with the value each delivered in its place; awaiting any of several resumes it exactly once, for the first that fires, with that event's index and value. Later or concurrent firings of the other events have no effect on it, even if the coroutine has gone on, finished and been destroyed. This holds for notifications arriving from other threads at any moment, including while the subscription is still being set up.",
  ["schedules"], "all interleavings of 2 notifier threads (1-2 notifications each) with the subscribing coroutine over 2-3 events, void and valued",
  "No executed test uses the event combinators at all (waiter_any/waiter_all are never called).",
  ["events.hpp"],
  [("counted callbacks", "events.hpp when_all(event...)"), ("first-wins counter", "events.hpp when_any(event...)")],
  [("count", "how many events fired", "events.hpp awaiters")], ["result of co_await when_all/when_any of events"])

p("C08", "An async task delivers its outcome to its owner and is freed exactly once",
  "Waiting on or getting an async task returns only after its coroutine has produced its value or thrown; get then yields exactly that value or rethrows that exception, and readiness, once reported, means get does not block. Everything the coroutine did before finishing is visible to the owner after waiting. In every schedule of finishing against getting, detaching, moving, swapping or destroying the owner, the coroutine runs to completion and its frame is destroyed exactly once, never while either side still uses it.",
  ["schedules", "histories"], "all interleavings of the finishing coroutine (value, void, reference, move-only, exception) with owner scripts over wait, ready, get, detach, move, swap, destroy",
  "Tests call get or detach after random thread hops; the finish-versus-detach race on the shared ownership needs exact interleavings and a lifetime oracle.",
  ["async_task.hpp", "common.hpp"],
  [("ready flag with notification", "async_task.hpp final suspend"), ("two-owner reference count", "async_task.hpp detach / final suspend")],
  [("ready", "result produced", "async_task.hpp promise"), ("ref_count", "owners alive", "async_task.hpp promise")], ["get", "wait", "ready", "frame lifetime"])

p("C09", "A logical thread stops, joins and detaches like std::jthread",
  "Joining a logical thread returns only after its coroutine has finished and makes everything it did visible; destroying or assigning over a joinable one requests stop and joins it, detaching lets it finish on its own. A stop request is seen by the coroutine's stop token and never invented; stopping several requests all before joining any. In every schedule of finishing against join, detach, destruction or move the frame is destroyed exactly once, after both sides are done with it.",
  ["schedules", "histories"], "all interleavings of the coroutine's completion on another thread with owner scripts over request_stop, join, detach, move, swap, destroy and stop(...) of one or two logical threads",
  "Tests always join at scope exit on one random schedule; detach racing with completion is never run.",
  ["logical_thread.hpp"],
  [("two-party handshake flag", "logical_thread.hpp two_way_bound"), ("stop flag", "logical_thread.hpp stop_token")],
  [("flag", "one side has finished", "two_way_bound"), ("stop_requested_", "stop was asked for", "promise")], ["join", "detach", "request_stop", "frame lifetime"])

p("C10", "A task is lazy, runs once and hands its outcome to the awaiter",
  "A task's body does not start before the task is awaited, started or got, and runs at most once. Awaiting it resumes the awaiter exactly once after the body has finished, on the thread that finished it, with exactly the returned value or reference - also when returned through the in-place return slot - or rethrows the exception it ended with; awaiting or getting an already finished task does not run it again. Waiting without taking the result never throws, and a blocking get returns only after the body has finished on whatever thread.",
  ["inputs", "schedules", "histories"], "all task trees up to depth 3 over value kinds (trivial, owning, move-only, reference, void), outcomes and hop points, and all usage scripts over await, wait, get, move, destroy up to depth 4",
  "Tests cover one straight-line use per feature; combinations of value kind, outcome, hop and repeated use are not enumerated.",
  ["task.hpp", "common.hpp", "async_task.hpp"],
  [("lazy start and transfer of control to the awaiter", "task.hpp awaiters / final_suspend"), ("result storage", "common.hpp return_block")],
  [("who_waits", "the awaiting coroutine", "task_promise"), ("storage/exception", "the outcome", "task_promise")], ["co_await task", "task::wait", "task::get"])

p("C11", "A task's frame has one owner at any time and is destroyed exactly once",
  "Whatever sequence of moving, assigning, swapping, releasing, detaching, starting detached (self-destroying or stopping at the end), awaiting and destroying is applied to tasks, each coroutine frame with its arguments, locals and stored result is destroyed exactly once and not before its last use. A task that was moved from by construction, released, detached or started detached is empty, and a detached task runs to completion and then frees itself, or stops at its end if asked to.",
  ["histories", "schedules"], "all operation sequences up to depth 5 over two task objects, and all interleavings of detached tasks finishing on another thread",
  "Tests use a single ownership path per case and do not count destructions.",
  ["task.hpp", "common.hpp"],
  [("single owning handle", "task.hpp task"), ("self-destruction when nobody waits", "task.hpp final_suspend / transfer_control_to")],
  [("handle_", "owned frame", "task.hpp")], ["destructor counts", "empty()", "start_and_detach", "detach", "release"])

p("C12", "Waiting for all tasks yields every outcome in order, after all finished",
  "Awaiting all of a set of tasks completes exactly once, only after every task has finished, on whatever threads; the result holds, in the position of each task, its value or the exception it ended with, and one failing task never hides, cancels or misplaces another. Everything each task did is visible to the awaiter. An empty set completes at once.",
  ["schedules", "inputs"], "all interleavings of 1-3 child tasks (value, void, move-only, throwing; finishing inline or on other threads), in the variadic and the vector form",
  "Tests check a few fixed outcome vectors under random schedules; the last-finisher hand-over race is not enumerated.",
  ["algorithm.hpp", "task.hpp", "noexport/expected.hpp"],
  [("countdown of unfinished children", "algorithm.hpp when_all")],
  [("count", "children not finished", "algorithm.hpp when_all")], ["co_await when_all(...)"])

p("C13", "Waiting for any task yields the first success exactly once",
  "Awaiting any of several tasks resumes the awaiter exactly once: as soon as one task has succeeded, with that task's index and value, or, when every one of them failed, with the exception of the last to fail. Tasks that finish later - also after the awaiter has gone on or was destroyed - change nothing, run into no freed memory, and are all freed once they finish; tasks that have not begun when the combination is freed never begin.",
  ["schedules", "inputs"], "all interleavings of 1-3 child tasks (succeeding/failing; inline or on other threads; void, owning and throwing results) with an awaiter that finishes and is destroyed immediately",
  "Tests check index sets under random schedules and cannot see a use of freed state or a double resume deterministically.",
  ["algorithm.hpp", "task.hpp", "noexport/expected.hpp"],
  [("first setter takes the owner under a mutex", "algorithm.hpp when_any_state"), ("weak reference to the shared state", "algorithm.hpp job_for_when_any")],
  [("owner", "awaiter still to be resumed", "when_any_state"), ("count_waiters", "children not failed yet", "when_any_state")], ["co_await when_any(...)"])

p("C14", "Task contexts observe the lifecycle of every task",
  "Each task that is awaited tells its context first who its owner is and then that it starts, before any of its body runs; a task started detached tells only that it starts; every task tells that it ended exactly once, after its body finished by value or exception and before the awaiter continues. For tasks run under a wait-for-all the owner reported is the combining task. The context a running task gets from inside is the same object the task handle exposes.",
  ["inputs", "histories"], "all task trees up to depth 3 with every start mode (await, wait, detached, all-of, any-of) and outcome",
  "One test follows a single nesting; start modes, combinators and failing tasks are not covered.",
  ["task.hpp", "algorithm.hpp"],
  [("context hooks around start and end", "task.hpp prepare_task_to_start / start_and_detach / final_suspend")],
  [("ctx", "user context in the promise", "task_promise")], ["on_owner_setted", "on_start", "on_end", "this_coro::context", "get_context"])

p("C15", "A generator yields exactly the flattened sequence, lazily",
  "Iterating a generator produces exactly the values its body yields, in order and each once, with every nested range, generator (fresh, partly consumed or empty, of any allocation flavour) given by elements_of contributing its remaining elements in place, then ends. The body runs only on demand: creating does not start it, and it never runs past the value being looked at. Breaking off and beginning again goes on with the next value, and the iterator equals end exactly when no value is left.",
  ["programs", "inputs"], "all generator programs (trees of yield / elements_of / return up to 3 levels and bounded size) under all consumer scripts of begin, increment, break and restart",
  "Tests fix a handful of nestings; the root/leaf bookkeeping has corner cases (partly consumed leaf with its own leaf, empty leaf, leaf last) that need enumeration.",
  ["generator.hpp", "noexport/generators_common.hpp"],
  [("attach a leaf to the root", "noexport/generators_common.hpp attach_leaf"), ("return to the owner at the end of a leaf", "generator.hpp final_awaiter / skip_this_leaf")],
  [("root/current_worker", "who is resumed next", "generator_promise"), ("current_result", "current value", "generator")], ["values seen by the consumer", "side effects of the body"])

p("C16", "A generator's exception reaches the consumer once and only fails its leaf",
  "An exception leaving a generator's body is thrown out of the increment or begin that ran it, exactly once, after all values yielded before it. If it came from a generator nested through elements_of, only that nested generator is over: beginning again continues with the owner after that point; if it came from the outermost body, the generator is finished and empty. Locals of every frame are destroyed exactly once throughout.",
  ["programs", "fault_sequences"], "all generator trees up to 3 levels with a throw at any position (or several), consumer catching and continuing any number of times",
  "Two tests throw at one fixed place each.",
  ["generator.hpp", "noexport/generators_common.hpp"],
  [("skip the failed leaf, then rethrow", "generator.hpp unhandled_exception")],
  [("root/current_worker", "where iteration continues", "generator_promise")], ["exceptions seen by the consumer"])

p("C17", "Generator moves, swaps, clears and destruction keep iteration and frames right",
  "After any sequence of moves, assignments, swaps, releases, resets and clears at any point of an iteration, continuing from the object that now holds the coroutine yields exactly the remaining values. A generator that is default constructed, moved from by construction, cleared or released is empty, compares equal to an empty one, and a loop over it yields nothing. Every frame, including suspended nested ones, and every local in it, is destroyed exactly once.",
  ["histories"], "all sequences of up to 4-5 operations (begin, ++, move-construct, move-assign, swap, clear, release, reset, destroy) over two generators with nested leaves",
  "One test swaps once; lifetime operations in the middle of an iteration are otherwise untested.",
  ["generator.hpp"],
  [("consumer back pointer re-established on swap", "generator.hpp swap / prepare_to_start")],
  [("top/current_result", "owned frame and current value", "generator")], ["values", "empty()", "destructor counts"])

p("C18", "A channel yields the flattened sequence across suspensions and threads",
  "Iterating a channel produces exactly the values its body yields, in order and each once, with nested channels and ranges contributing their remaining elements in place, no matter where the body suspends and which thread resumes it. The consumer is resumed exactly once per value or at the end, on the thread that produced it, and sees everything the producer did before; the body only runs on demand. Both iteration and asking for the next value report the end exactly when nothing is left.",
  ["programs", "schedules"], "all channel programs (trees of yield / elements_of / hop up to 3 levels, bounded size) with consumers using iterators, the loop macro or next(), with breaks and restarts, under all interleavings of the hop targets",
  "Tests hop randomly between threads and compare sums; they neither enumerate positions of hops nor structure.",
  ["channel.hpp", "noexport/generators_common.hpp"],
  [("control transfer to the consumer", "channel.hpp yield_value / final_awaiter"), ("leaf attach", "noexport/generators_common.hpp")],
  [("handle", "consumer coroutine", "channel"), ("current_worker", "producer to resume", "channel_promise")], ["values and thread of the consumer"])

p("C19", "Channel failures reach the consumer once; its lifetime operations are safe",
  "An exception leaving a channel's body ends the current iteration after the values before it and is then thrown to the consumer (or handed over by take_exception, once); a failing nested channel only skips itself and beginning again continues with its owner. After any sequence of moves, assignments, swaps, releases and clears, continuing from the object that now holds the coroutine yields the remaining values; empty channels yield nothing. Every frame and every local is destroyed exactly once.",
  ["programs", "histories", "fault_sequences"], "all channel trees up to 3 levels with throws at any positions, and all sequences of up to 4 lifetime operations over two channels",
  "Tests throw at two fixed places and never move or clear a channel while iterating.",
  ["channel.hpp", "noexport/generators_common.hpp"],
  [("store the exception in the consumer object, rethrow when the iterator dies", "channel.hpp unhandled_exception / ~channel_iterator")],
  [("exception", "unhandled failure", "channel")], ["exceptions", "take_exception", "destructor counts"])

p("C20", "In-place generators yield their sequence and own their frame",
  "An in-place generator computes its first value when created and each further value only when incremented, yields exactly its body's values in order and then is empty. Moving or swapping it at any point carries the iteration along, and constructing from it leaves it empty and iterable; an exception is thrown to whoever ran the body and finishes it. Its frame and every local is destroyed exactly once.",
  ["programs", "histories"], "all bodies of up to 3 steps (yield by value, lvalue, reference; throw; return) under all sequences of up to 5 consumer operations over two generators",
  "Three small tests cover the straight path and a single move.",
  ["inplace_generator.hpp"],
  [("eager first step, final suspend kept", "inplace_generator.hpp promise"), ("empty placeholder frame after move", "inplace_generator.hpp move constructor")],
  [("top", "owned frame", "inplace_generator")], ["values", "exceptions", "destructor counts"])

p("C21", "Yielding hands over the very object or a private copy, as asked",
  "A value yielded as an rvalue reaches the consumer as that same object without a copy; a const lvalue is copied once and the consumer cannot affect the original; a value yielded by reference, from a reference generator, or through a non-borrowed range by elements_of is the original object, so the consumer's writes - also through the output iterator - are seen by the body. The object stays valid and unchanged until the next increment. This holds alike for generators, channels and in-place generators, at every nesting level and allocation flavour.",
  ["inputs", "programs"], "every yield form x element type (trivial, counting, move-only, reference, const reference) x producer kind x nesting level 0-2 x consumer action (read, move from, write)",
  "Tests check a few forms of generator and no copy counts or nesting.",
  ["generator.hpp", "channel.hpp", "inplace_generator.hpp", "noexport/generators_common.hpp"],
  [("yield overloads", "generator.hpp yield_block, channel.hpp yield_value"), ("hold a copy until resumed", "noexport/generators_common.hpp hold_value_until_resume"), ("range adaption", "noexport/generators_common.hpp to_generator")],
  [("current_result", "address of the yielded object", "generator/channel")], ["address, copies and value seen on both sides"])

p("C22", "Coroutine frames come from the chosen memory resource and go back to it",
  "A coroutine with a memory resource - taken from its last argument if that is a resource tag, or fixed by its type - gets its frame by one allocation from that resource and returns it by one deallocation with the same address and size, when it is destroyed and in whatever way that happens; no other coroutine uses it. The frame is aligned for the resource, the resource stored with it survives until the deallocation, a tag that can be copied serves any number of coroutines, and a failed allocation surfaces as an exception that leaks nothing. A thread pool takes and returns all memory it says it takes from its resource there.",
  ["configurations", "inputs", "fault_sequences"], "every coroutine kind x resource kind (empty, trivially destructible, non-trivial with owner semantics, over-aligned up to the allowed limit, polymorphic) x selection way x end of life x allocation failure",
  "Tests check promise types statically and one resource at run time, with a size check only.",
  ["memory_support.hpp", "thread_pool.hpp", "noexport/fixed_array.hpp"],
  [("operator new/delete with the resource stored behind the frame", "memory_support.hpp overload_new_delete"), ("deduction through coroutine_traits", "memory_support.hpp")],
  [("resource behind the frame", "owner of the frame's memory", "memory_support.hpp")], ["calls received by the resource"])

p("C23", "Passed and default polymorphic resources are picked up as documented",
  "A resource passed for the next polymorphic coroutine is used by exactly the next such coroutine created on the same thread and by no other thread's; when none was passed, the globally set default resource is used, and setting it returns the previous one. The frame is always returned to the resource it came from, on whatever thread it ends and whatever was passed or set in between.",
  ["histories", "schedules"], "all sequences of up to 5 operations (pass, set default, create, destroy) and all interleavings of two threads passing, setting and creating",
  "One test passes one resource once; the default setter is never exercised.",
  ["memory_support.hpp"],
  [("thread-local passed resource consumed on construction", "memory_support.hpp polymorphic_resource"), ("atomic default", "memory_support.hpp default_resource")],
  [("passed_resource", "resource for the next coroutine on this thread", "memory_support.hpp")], ["which resource is asked for memory"])

p("C24", "The stack memory resource hands out disjoint aligned blocks and frees all",
  "Every block handed out by a stack memory resource is aligned for coroutine frames, has the requested size, does not overlap any live block or its bookkeeping, and keeps its content until it is deallocated, for every last-in-first-out history of allocations, deallocations, moves and assignments. Memory given back is reused before more is requested, reusing all makes the whole resource including the initial buffer available again, and all memory it requested is returned when it dies.",
  ["histories", "inputs"], "all LIFO histories up to depth 7 over a small alphabet of sizes around the chunk boundaries, initial buffers of several sizes, moves, assignments and full reuse",
  "The test runs 1000 random histories per configuration and checks block contents only; it never calls reuse and never checks overlap or reuse.",
  ["stack_memory_resource.hpp"],
  [("bump pointer with chunk headers and free list", "stack_memory_resource.hpp")],
  [("b/m/e", "current chunk", "stack_resource"), ("freelist", "chunks to reuse", "stack_resource")], ["addresses and contents of blocks", "allocations made from the heap"])

p("C25", "Executor adapters attach each node once to the executor meant",
  "Jumping onto an executor suspends the coroutine and gives it to that executor's attach exactly once, then reports whether it was run or cancelled; the inline executor resumes it on the same thread before attach returns, the new-thread executor on a fresh thread, which attach does not wait for, the no-op executor never. A type-erased executor reference behaves exactly like the executor it refers to, also when copied. Attaching a list attaches every node of it exactly once in list order even if nodes die as soon as they are attached, and reversing a list returns exactly its nodes in reverse.",
  ["inputs", "schedules"], "all lists up to 4 nodes, all executors incl. wrapped ones, with nodes resumed (and freed) inside attach or concurrently",
  "Only incidental use in tests.",
  ["executor_interface.hpp", "thread_pool.hpp"],
  [("node embedded in the awaitable", "executor_interface.hpp create_node_and_attach"), ("next read before attach", "executor_interface.hpp attach_list")],
  [("task_node", "link, coroutine and status", "executor_interface.hpp")], ["calls of attach, resumptions"])

p("C26", "Building a pool survives failures without leaking threads or memory",
  "If creating a thread or obtaining memory fails while a thread pool or worker is being constructed, the failure is reported by an exception, every thread already started has stopped and been joined, and all memory has been returned to where it came from. A pool constructed with n threads (at least one) has exactly max(1, n) working queues and threads, each of which executes work.",
  ["fault_sequences", "schedules"], "a failure injected at every thread creation and every allocation of construction, for 0-3 threads, under all interleavings of the already started workers",
  "Tests never make construction fail.",
  ["thread_pool.hpp", "noexport/fixed_array.hpp"],
  [("rollback of started threads", "thread_pool.hpp constructor"), ("array on a memory resource", "noexport/fixed_array.hpp")],
  [("queues/threads", "parallel arrays", "thread_pool")], ["exception, live threads, outstanding memory"])

p("C27", "Fire-and-forget jobs start at once and free themselves exactly once",
  "A job starts running when called, on the caller's thread, and nothing its creator does with the returned object affects it. When its body ends - on whatever thread, also after being resumed with a cancelled status - its locals, arguments and frame are destroyed exactly once, and nothing touches them afterwards. A scheduled callable is moved or copied into the job, invoked at most once, and destroyed exactly once after its invocation.",
  ["schedules", "inputs"], "all interleavings of jobs hopping over 1-2 executors with their creator, and callables of each kind (owning, move-only, by resource) over run and cancel",
  "Tests count increments only; they have no lifetime oracle.",
  ["job.hpp", "thread_pool.hpp"],
  [("never suspend at start and end", "job.hpp promise"), ("callable stored in the frame", "thread_pool.hpp schedule_to")],
  [("job frame", "self-owned", "job.hpp")], ["destructor counts, invocations"])

p("C28", "Control-transfer and scope helpers do exactly what they say",
  "Transferring control resumes exactly the named coroutine once, or simply goes on when there is none; destroying and transferring destroys the current coroutine exactly once before the other runs, and works with no target. Suspending with a function calls it once with this coroutine's handle after the coroutine is suspended and honours what it returns (stay suspended, go on, or transfer). Obtaining its own handle, operation hash or stop token never suspends a coroutine, and a scope guard runs its action exactly once on any exit, and an exception of the action leaves the scope. An awaiter built by hand is the one co_await would use, of the very object.",
  ["inputs", "programs"], "every helper x every coroutine kind that accepts it x targets present or absent x return kinds x exits by return, exception or destruction",
  "Used only indirectly by the tests.",
  ["common.hpp", "operation_hash.hpp", "logical_thread.hpp"],
  [("awaitables", "common.hpp"), ("scope_exit", "common.hpp")],
  [], ["order of resumption and destruction"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
