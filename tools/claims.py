HOOKS = dict(guard='none', enable='no hooks: the checks compile /repo/include as it is', source_commits=[])
CLAIMS = {
 'C01': ('proof', 'Every obligation of every forest mutator contract is discharged for all forests and arguments; range erase, clear, reverse and range copy are loops. Trusted: clang front end, the irv engine, z3/cvc5, node allocation and element copy contracts.'),
}
CLAIMS['C02'] = ('proof', 'All obligations of the step, search and filtering contracts are discharged for all forests, edges and predicates. A full sweep and the n-step round trip follow by induction on the per-step contracts. Trusted: clang front end, irv engine, z3/cvc5.')
CLAIMS['C18'] = ('proof', 'All obligations of reverse, reverse_append, reverse_until, splice_node_range and skip_next_node are discharged for all node sequences; std::reverse/reverse_copy are assumed contracts.')
CLAIMS['C05'] = ('proof', 'All obligations discharged: every operation from every task state (empty, small or large callable, moved from) with opaque callables; the states are closed under the operations. Callable special members are assumed contracts; bad_alloc is not modelled.')
CLAIMS['C19'] = ('proof', 'All obligations discharged for the instantiations at 0,1,2,3,5 and 8 elements; contents, predicate results and indices symbolic. Tuple length is a template parameter, so other lengths are not covered.')
CLAIMS['C20'] = ('proof', "All obligations of scope, of the tracker and of its clients' special members and call are discharged with opaque bodies, resources and callables and symbolic counts. shared_ptr/weak_ptr are the real libstdc++ code; std::function is inlined where reached.")
CLAIMS['C01'] = ('proof', 'insert, erase(position), push/pop, splice (all forms), insert_parent, construction: every obligation discharged for all forests and arguments. erase(range), clear, reverse and the copy loop are covered only by the bounded harness (all forests up to a stated size), labelled bounded in the evidence. Trusted: clang front end, irv engine, z3/cvc5; node allocation and element copy are assumed contracts.')
CLAIMS['C17'] = ('proof', 'at_pre_exit, pre_exit and the stack they share, every critical section as an allowed transition (push / take last / close) of the locked state; all obligations discharged for any interleaving of critical sections. std::mutex and vector growth are assumed contracts.')
CLAIMS['C07'] = ('proof', 'enqueue, empty, all, single, kickstart, executor(): every critical section is shown to be an allowed transition for any interleaving, any queue length, both modes and any executor; drain closures are verified against the drain contract they are handed over with. deque operations are assumed sequence contracts; task_ special members use the C05 contracts.')
CLAIMS['C06'] = ('proof', 'notification_queue (push, try_push, try_pop, pop, wake, done), waiter, and priority_task_system (execute, run, add_thread, join, wake) under contract: every critical section an allowed transition for any interleaving and any queue contents; the task loop over queues and priorities for all inputs. push_heap/pop_heap are assumed contracts; constructor registration is covered by the bounded harness only.')
CLAIMS['C08'] = ('proof', 'system_timer push (all overloads), run, stop: every critical section is an allowed transition of the locked heap for any interleaving, any clock readings (monotone) and any spurious wake-ups; task taken only when due and earliest, sleep never past the earliest deadline, exactly-once. std heap algorithms, condition_variable and steady_clock are assumed contracts.')
CLAIMS['C03'] = ('proof', 'size, empty, size_valid, ==, !=, equal_shape (both directions), copy/move construct and assign, swap, and the cached-size invariant over every C01 mutator: all obligations discharged for all forests. The copy loop of the copy constructor and range erase/clear are covered through their contracts plus the bounded harness (labelled bounded).')
CLAIMS['C04'] = ('proof', 'flatten, transcribe (all four overloads), unflatten as loops over opaque iterators with one-event-per-position contracts; transcribe_iterator on the real forest. All obligations discharged; the round trip follows by induction over the tokens from these, C01 insert and C02 step.')
CLAIMS['C09'] = ('proof', 'future::then/recover/|/^ (all forms, copyable, void and move-only), detach, and the completing functions (set_value, _set_exception, proceed) under a monitor invariant of the shared state: every critical section either appends one continuation while not ready or puts the result in place, takes the whole list and sets ready; the scheduling loop is shown to hand element k to its own executor for every k, any list length. Interleavings are covered by havocking the list at every lock; thread schedules of whole calls are additionally run in a bounded harness.')
CLAIMS['C10'] = ('proof', 'package (value, void, move-only, with argument, returning a future), packaged_task (run, destroy, overwrite, self-assign, set_exception, move, ended by its own function), promise, async, ready and broken futures: result is exactly the value or exception, function called at most once and only while a future wants it, destruction or overwriting breaks the promise; any number of copies of the future.')
CLAIMS['C11'] = ('proof', 'then/recover/operators/detach/get_ready/get_try/error/exception/handles of future<T>, future<void>, future<move-only> for any result, readiness and number of owners. await, await_for, blocking_get, blocking_get_for are only run in the bounded threaded harness.')
CLAIMS['C12'] = ('proof', 'when_all in argument form (0, 1, 2 and 3 inputs, void/value/move-only mixes) and range form (value, void, move-only; any number of inputs incl. none): attaching loop, each report of an input in any state of the shared context, the packaged call; every critical section is an allowed transition of the locked context for any interleaving. Futures, packages and executors through their contracts (C09-C11).')
CLAIMS['C13'] = ('proof', 'when_any in argument form (1, 2, 3 inputs; value, void, move-only) and range form (value, void, move-only; any number, incl. the empty range): attaching, each report in any state of the shared context, the packaged call; every critical section is an allowed transition of the locked context for any interleaving. Futures, packages and executors through their contracts (C09-C11).')
NA = {}
