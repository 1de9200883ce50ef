import json
B="portable_concurrency/bits/"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[B+f for f in files],mechanism=[dict(name=n,where=B+w) for n,w in mech],observe_at=observe or ["public API"],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=B+w) for n,m,w in state]
    P.append(d)

p("C01","A read end yields exactly the result its write end stored",
 "Whatever value, reference or exception is stored through a promise, a packaged_task, async, make_ready_future or make_exceptional_future is what every matching future or shared_future yields: an equal value (moved, never copied, out of a unique future), the very same referenced object, an equal exception. A read end reports not-ready before the store and ready from the moment the store has completed, for every supported result type (void, references, move-only, copyable) and for every kind of promise (plain, with allocator, with canceler). All copies of a shared_future yield one and the same stored object, any number of times. Storing never modifies an object that was only referred to (an lvalue passed to set_value, or returned by the function of a packaged_task).",
 ["inputs","histories"],"every result type, payload, way of creating the pair, and order of create/share/copy/move/store/read operations",
 "The unit tests store one fixed value per type through one fixed sequence; they do not combine write-end kind, type, sharing, moving and order, nor check that nothing is copied or moved from under another reader.",
 ["promise.h","packaged_task.h","async.h","make_future.h","shared_state.h","future.hpp","shared_future.hpp","either.h"],
 [("result storage and readiness switch","shared_state.h"),("value extraction","future.hpp"),("const access for shared readers","shared_future.hpp")],
 [("result storage","empty / value / nested state / error","shared_state.h"),("continuation list","consumed == ready","once_consumable_stack.h")])

p("C02","Blocked readers always wake up and see the complete result",
 "A thread blocked in get() or wait() on a future or shared_future returns as soon as the result has been stored or the write end abandoned by another thread, under every interleaving, with any number of concurrent waiters. It never returns earlier and never sleeps forever, and everything the storing thread did before the store is visible to it (and to a thread whose is_ready() returned true) without a data race.",
 ["schedules"],"all thread interleavings of 1..3 readers with a writer that stores a value, stores an error or abandons",
 "Tests run one native schedule with a long sleep in front of the store, so the window between registering a waiter and the store is practically never hit, and x86 hides weakened memory ordering.",
 ["portable_concurrency.cpp","once_consumable_stack.hpp","shared_state.h","future.hpp","shared_future.hpp"],
 [("waiter registration and wake-up","portable_concurrency.cpp"),("atomic push / consume protocol","once_consumable_stack.hpp")])

p("C03","Attached functions are scheduled exactly once, after readiness",
 "Every function attached with notify, then or next to a future or shared_future that becomes ready is scheduled exactly once, however attachments from several threads interleave with the completion and with each other. No attached function runs before the future is ready, each one sees the complete result without a data race, and attaching to an already ready future schedules the function immediately.",
 ["schedules","histories"],"all interleavings of several attaching threads with the completing thread; any number of attachments before, during and after completion",
 "The once-only guarantee is a property of the race between attach and complete; tests attach strictly before or strictly after the completion from one thread.",
 ["once_consumable_stack.hpp","once_consumable_stack.h","continuations_stack.h","portable_concurrency.cpp","then.hpp","future.hpp","shared_future.hpp"],
 [("compare-exchange push against the consumed marker","once_consumable_stack.hpp"),("run inline if already consumed","portable_concurrency.cpp")])

p("C04","Continuation chains compute what direct evaluation would compute",
 "For every graph of then/next continuations over unique and shared futures the result of each node equals the result of evaluating the same functions directly. next invokes its function only if the parent succeeded, with exactly the parent's result (the reference itself for a future of a reference), and otherwise passes the parent's exception on unchanged; then always invokes its function, with a ready future; an exception thrown by a continuation function becomes the result of the continuation's future. Attaching to a shared_future leaves it usable, attaching to a future consumes it.",
 ["programs","inputs","histories"],"all continuation graphs (kinds, result types, executors, throwing functions, attach-before or attach-after completion)",
 "Tests use chains of length one or two with a single type; propagation through mixed unique/shared/void/reference nodes and arbitrary attach/complete order is never compared with a reference evaluation.",
 ["then.hpp","utils.h","future.hpp","shared_future.hpp","shared_state.h","invoke.h"],
 [("decorated continuation functions","then.hpp"),("storing a function's outcome","utils.h")])

p("C05","Nested futures are unwrapped transparently",
 "When a function passed to async, packaged_task, then or next returns a future or shared_future, the resulting future becomes ready exactly when the function has returned and the inner future is ready, and yields the inner value or exception. If the function returns an invalid future the result is a broken_promise error; if it throws, that exception. This holds for any nesting depth and any interleaving of the inner completion with the unwrapping.",
 ["programs","schedules","histories"],"all places a function can return a future, inner outcome kinds, nesting depths, and orders/interleavings of outer and inner completion",
 "Tests cover one nesting level with a fixed order of events; the race between inner completion and unwrapping and the loss of inner errors in chains are not sampled.",
 ["shared_state.h","then.hpp","utils.h","packaged_task.h","async.h"],
 [("subscription of the outer state to the inner one","shared_state.h"),("abandon guard for pending unwrap","shared_state.h")])

p("C06","Dropping an unfulfilled write end delivers broken_promise",
 "If a promise, a packaged_task, or a task handed to an executor (by async, then or next) is destroyed, overwritten or discarded before it produced a result, every read end waiting for it becomes ready with a broken_promise error, its waiters wake and its continuations run, and the stored function is destroyed. A write end that did produce a result never turns into broken_promise, and an already stored result is never overwritten.",
 ["histories","schedules"],"all write-end kinds, ways of dropping them, reader kinds (get, wait, notify, then, next, when_all/any) and interleavings of drop with attach/wait/discard",
 "Tests drop each kind once with no reader racing; dropping through executors, interruptible continuations holding a promise, moves and chains of readers is not explored.",
 ["promise.h","packaged_task.h","then.hpp","shared_state.h"],
 [("abandon on destruction and on move assignment","promise.h"),("abandon of posted task","then.hpp"),("abandon of packaged_task","packaged_task.h")])

p("C07","Dropping the last read end cancels unstarted work, and only then",
 "Once the future or all shared_futures at the end of a chain are destroyed, functions of the chain that have not started are never executed and are destroyed with everything they captured, is_awaiten() of the feeding promise becomes false, and a canceler passed to the promise is invoked exactly once if the promise was unfulfilled. As long as any future, shared_future copy or continuation result depending on it is alive, is_awaiten() stays true, no function is dropped and the canceler is not invoked; the canceler is never invoked after fulfilment or abandonment.",
 ["histories"],"all histories of building chains, copying, sharing, dropping read ends, scheduling on deferring executors and fulfilling in any order",
 "Tests sample single-step histories; the condition is about reachability over an arbitrary graph of handles and pending tasks.",
 ["then.hpp","promise.h","packaged_task.h","future.hpp","shared_future.hpp","shared_state.h"],
 [("weak write ends, strong parent links","then.hpp"),("canceler in state destructor","promise.h")])

p("C08","Cancellation racing with fulfilment is safe and all-or-nothing",
 "When read ends are dropped while other threads fulfil, abandon, schedule or execute the same chain, every function runs at most once, a function that runs sees valid arguments, the canceler runs at most once and exactly once iff the promise's result was not stored, and surviving read ends still get their result. No interleaving touches destroyed objects, leaks, deadlocks or terminates the program.",
 ["schedules"],"all interleavings of dropping read ends with set_value/set_exception/drop/attach/execute in other threads",
 "The windows (a write end promoting its weak reference while the last reader goes away) are a few instructions wide and never hit by sequential tests.",
 ["promise.h","then.hpp","packaged_task.h","shared_state.h","once_consumable_stack.hpp"],
 [("promotion of weak reference for the duration of the operation","promise.h"),("state moved out before running","then.hpp")])

p("C09","detach keeps the work alive without a reader",
 "After detach() on a future or shared_future, all functions needed to produce its result are executed and their results delivered to the remaining observers even if every read end is destroyed prematurely; the original handle becomes invalid and the returned one is usable. Continuations attached after detach can still be cancelled, and all resources are released once the detached result has been produced.",
 ["histories","schedules"],"all chains with detach at any position, before or after completion, racing with completion",
 "Tests only check is_awaiten() after one detach; they do not check execution of a whole chain, release of resources or races with completion.",
 ["future.hpp","shared_future.hpp","shared_state.h"],
 [("self-owning continuation","future.hpp"),("allocator aware push","shared_state.h")])

p("C10","when_all is ready exactly when all inputs are, preserving them in order",
 "The future returned by when_all becomes ready exactly when the last of its inputs becomes ready (immediately if there are none), whatever the number and kind of inputs (tuple, iterator range, vector, futures and shared_futures), their outcomes and the order or interleaving of their completions. Its value holds every input, valid and ready, in the original order with its own result; input errors never become the error of the combined future. Whoever sees the combined future ready sees everything done before any input was completed.",
 ["schedules","inputs","histories"],"all input counts/kinds, completion orders, ready-at-call subsets and concurrent completions",
 "Tests complete at most a few inputs in one order from one thread.",
 ["when_all.h","future_sequence.h"],
 [("outstanding operations counter","when_all.h")],
 [("outstanding operations","inputs not yet ready plus construction","when_all.h")])

p("C11","when_any becomes ready with the first input and names a ready one",
 "The future returned by when_any becomes ready exactly when the first of its inputs becomes ready (immediately, with index size_t(-1), if there are none), under every order and interleaving of completions, and only once. Its value holds all inputs in the original order, its index designates an input that was ready when the combined future became ready, and inputs completing later remain usable and keep their own results. Whoever sees it ready sees everything done before the designated input was completed.",
 ["schedules","inputs","histories"],"all input counts/kinds, completion orders, ready-at-call subsets and concurrent completions",
 "Simultaneous completions of several inputs and completions during construction need particular interleavings.",
 ["when_any.h","future_sequence.h"],
 [("first-wins flag","when_any.h")],
 [("first-wins flag","set by the first completing input","when_any.h")])

p("C12","Misuse is reported as the documented error and corrupts nothing",
 "Setting a result twice reports promise_already_satisfied, retrieving a future twice reports future_already_retrieved, calling a task twice reports promise_already_satisfied, and using an invalid (default constructed, moved-from or consumed) promise, packaged_task, future or shared_future reports no_state; in every case the previously stored result, attached functions and other handles are unaffected. valid() is exactly true while the handle refers to a result: get(), then(), next(), share(), detach() and moving invalidate a future, and none of the reading operations invalidate a shared_future.",
 ["histories"],"all sequences of protocol operations, legal and illegal, on all handle kinds and result types",
 "Each test provokes one error on a fresh object; errors in the middle of longer histories and their side effects are not observed.",
 ["promise.h","packaged_task.h","future.hpp","shared_future.hpp","shared_state.h","portable_concurrency.cpp"],
 [("state checks","promise.h"),("throw helpers","portable_concurrency.cpp")])

p("C13","User functions run only through the executor they were given",
 "A function passed together with an executor to async, then, next or notify is handed to that executor's post exactly once, is never run by the library on its own, and runs only when the executor invokes the posted task; if no executor is given it runs in place. Posting happens only after the source future is ready, and a posted task of async/then/next converts to unique_function without allocating memory, may be invoked from any thread and has effect at most once.",
 ["programs","histories","schedules"],"all graphs mixing executors (deferring, in-place, discarding, running on other threads), attach orders and completion orders",
 "Tests check the thread id of a single call; they cannot see double posting, early posting or in-place leaks in longer pipelines.",
 ["then.hpp","async.h","future.hpp","shared_future.hpp","execution.h","packaged_task.h","small_unique_function.hpp"],
 [("schedule step separate from run step","then.hpp"),("posting of the task","async.h")])

p("C14","Every object handed to the library is destroyed exactly once, none leaks",
 "For every history in which all handles are eventually destroyed and all write ends resolved, each value, callable, executor, canceler and exception passed to the library is destroyed exactly once, none is used after destruction, and all memory is returned. Stored functions are released once they have run or can no longer run, and values are released when the last read end goes away.",
 ["histories","schedules"],"all histories over all handle kinds including error, cancellation, unwrap, when_all/when_any and detach paths",
 "Tests look at a handful of captured objects; leaks or double destruction on rare paths (pending unwrap dropped, abandoned continuation with continuations) are not visible to them.",
 ["either.h","small_unique_function.hpp","once_consumable_stack.hpp","then.hpp","shared_state.h","packaged_task.h"],
 [("tagged storage","either.h"),("type erased small functions","small_unique_function.hpp"),("list destruction","once_consumable_stack.hpp")])

p("C15","A pool runs every accepted task exactly once and wait() drains it",
 "Every task posted to a static_thread_pool before wait() is called on it (and without stop()) is executed exactly once, on a worker or attached thread, by the time wait() returns, for any number of workers, posting threads and tasks posting further tasks, provided the pool has a worker of its own or a thread was attached before wait() was called. Tasks on different workers run in parallel (a blocked task does not prevent other workers from taking tasks), everything done before posting is visible to the task, everything a task did is visible after wait(), and a finished task is destroyed before its worker waits for more work.",
 ["schedules","histories"],"all interleavings of posters, workers and the waiting thread; pool sizes 0..3 plus attached threads",
 "Tests post one or two tasks to a one-thread pool; lost wake-ups and lost tasks at the close boundary need specific interleavings.",
 ["thread_pool.h","portable_concurrency.cpp","closable_queue.hpp","closable_queue.h"],
 [("closable blocking queue","closable_queue.hpp"),("worker loop","portable_concurrency.cpp")])

p("C16","Stopping or destroying a pool terminates cleanly and abandons the rest",
 "stop(), wait() and the destructor of a static_thread_pool always return once the running tasks finish, under every interleaving with posting, attaching and running tasks (including tasks that post or drop promises); no task runs after the destructor returned. After stop() a worker busy with a task starts no further one (destroying a pool that was neither stopped nor drained stops it), tasks never started and tasks posted after stop/wait are destroyed unrun, their futures becoming broken_promise no later than the pool's destruction, and attach() returns when the pool has been told to stop or drain.",
 ["schedules"],"all interleavings of stop/wait/destruction with posting and attached threads, pool sizes 0..3",
 "Shutdown races need a thread to be preempted between checking the stop condition and sleeping or between unlocking and notifying.",
 ["thread_pool.h","portable_concurrency.cpp","closable_queue.hpp"],
 [("close under the queue lock","closable_queue.hpp"),("attach/stop/wait","portable_concurrency.cpp")])

p("C17","A latch releases all waiters exactly when its count reaches zero",
 "wait() and count_down_and_wait() block until the total of count-downs reaches the initial count and then all return, under every interleaving and with any split of the count over count_down(n) and count_down_and_wait() calls; is_ready() is true exactly from that moment. Whatever a thread did before counting down is visible to released threads, and once its own wait returned a thread may destroy the latch even though other released or counting threads have not returned yet.",
 ["schedules","inputs"],"all interleavings of counters, waiters and the destroying thread, all splits of the count",
 "No unit test targets latch at all; it is only used as a tool in other tests.",
 ["latch.h","portable_concurrency.cpp"],
 [("counter and waiters under one mutex","portable_concurrency.cpp"),("destructor waits for leaving waiters","portable_concurrency.cpp")])

p("C18","Timed waits report ready or timeout truthfully",
 "timed_waiter::wait_for/wait_until (and the deprecated members of the futures) return ready only if the future is ready, return timeout only if the requested time has passed without the result having been stored before the wait began, and return as soon as the result is stored. This holds for repeated waits, copies of the waiter, zero and negative durations, steady, system and user-defined clocks, and for waiters outliving the future or being destroyed first.",
 ["schedules","inputs"],"all interleavings of storing with waiting, all durations/clocks, all lifetimes of waiter vs. future",
 "Tests use real sleeps with generous margins; completion at the instant of timeout or of registration is not reachable.",
 ["timed_waiter.h","future.hpp","shared_future.hpp"],
 [("notified flag under mutex with predicate","timed_waiter.h")])

p("C19","unique_function is a faithful move-only function wrapper",
 "A unique_function calls its target with exactly the passed arguments (references and move-only arguments included) and returns exactly the target's result, references and exceptions included, for every kind of callable, before and after any sequence of moves, swaps and assignments. An empty one (default, nullptr, null function/member pointer, empty std::function) is false and throws bad_function_call; targets are destroyed exactly once, moves never throw, and function pointers, member pointers, reference_wrappers and packaged_tasks are stored without heap allocation.",
 ["inputs","histories","programs"],"all callable kinds/sizes/alignments, signatures, and sequences of construct/move/assign/swap/call operations",
 "Tests cover a few signatures and one move; combinations of size class, alignment, reference results, self-moves and sequences are not covered.",
 ["unique_function.hpp","unique_function.h","small_unique_function.hpp","invoke.h"],
 [("small buffer with function table","small_unique_function.hpp"),("heap fallback","unique_function.hpp")])

p("C20","Coroutines returning and awaiting futures behave like plain functions",
 "A coroutine returning future<T> or shared_future<T> yields the value it co_returns or the exception escaping from it; co_await on a future or shared_future resumes exactly once when that is ready and yields its value or throws its exception, whether it is already ready, becomes ready later, or becomes ready concurrently with suspension. Coroutine frames and values are destroyed exactly once.",
 ["programs","schedules"],"all await/return/throw structures and interleavings of completion with suspension (C++20 builds)",
 "No unit test uses coroutines.",
 ["coro.h","promise.h","future.hpp","shared_future.hpp"],
 [("awaitable interface","future.hpp"),("coroutine promise interface","promise.h")])

p("C21","Failed operations leave the rest of the system working",
 "If storing a value throws (copy or move constructor) the exception reaches the caller and the promise can still be fulfilled; if a function, executor or argument cannot be copied, or memory allocation fails, while creating, attaching, combining, waiting or posting, that exception (std::bad_alloc) reaches the caller of the operation; if memory runs out while a future returned by a user function is unwrapped, the error becomes the result. In all cases nothing leaks, no function runs twice, and every pending future can still be completed. A failed operation may at most consume its own arguments (as if they were destroyed): no other handle, attached function, task or thread is affected.",
 ["fault_sequences","histories"],"every allocation or copy/move failure position in generated histories",
 "No test injects allocation failures; a single throwing move is tested for unique_function only.",
 ["shared_state.h","either.h","once_consumable_stack.h","promise.h","then.hpp","when_all.h","when_any.h","closable_queue.hpp"],
 [("construct before switching to ready","shared_state.h"),("node allocated before publication","once_consumable_stack.h")])

p("C22","User supplied allocators own all memory of the objects they were given to",
 "A promise created with an allocator takes the memory of its shared state, and of waiter/detach registrations on it, from that allocator; when_all/when_any of a vector with a user allocator keep using the passed vector's memory. Every block is returned exactly once, with the size it was requested with, to an equal allocator, whatever the history; results are identical to those without an allocator.",
 ["histories"],"all histories over allocator-created promises and vectors",
 "Tests use an arena that ignores deallocation, so mismatched or missing deallocation cannot be seen.",
 ["promise.h","shared_state.h","once_consumable_stack.h","when_all.h","when_any.h"],
 [("allocated state","shared_state.h"),("allocator aware list nodes","once_consumable_stack.h")])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
