import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
FO='include/stlab/forest.hpp'; FU='include/stlab/concurrency/future.hpp'; CH='include/stlab/concurrency/channel.hpp'
p('C01','Forest mutators produce exactly the described tree',
 'Inserting, erasing, splicing (whole forest, one node, child range; within one forest or from another), inserting a parent, reversing children and clearing a forest yield exactly the tree the operation describes: the named nodes are added, removed or moved to the named position, children of an erased node take its place in order, and every other node keeps its value, identity, nesting and relative order. Iterators returned refer to the documented edge, full-order traversal forwards and backwards stay mirror images of each other, and no node is leaked, freed twice or touched after being freed.',
 ['inputs','histories'],'every well-formed forest of any size and shape, every valid position and range, and every sequence of these operations',
 'The tests run a few dozen operations on hand-made trees of at most about a dozen nodes; the link-rewiring cases (leaf/inner node, first/last child, adjacent or empty ranges, self-splice next to the destination) multiply beyond them.',
 [FO,'include/stlab/iterator/set_next.hpp','include/stlab/algorithm/reverse.hpp'],
 [('forest::insert/erase/splice/insert_parent/reverse/clear',FO),('unsafe::set_next specialisations',FO),('reverse_append / reverse_nodes','include/stlab/algorithm/reverse.hpp')],
 [dict(name='node_base::_nodes',meaning='previous/next node for the leading and trailing edge',where=FO)],['begin()..end() traversal','returned iterators'])
p('C02','Forest traversals visit what their order promises',
 'From any edge of any forest, stepping forwards then backwards (or vice versa) with the full-order, child, reverse, depth, preorder, postorder and filtering iterators returns to the same place, and a full sweep visits every node exactly once per edge it promises in the documented order (children in sibling order, preorder on leading edges, postorder on trailing edges, reverse as the mirror image, and filtered sweeps omit exactly the subtrees whose root the predicate rejects). A depth iterator reports the nesting depth relative to its start at every step, and asking for the parent of an edge yields the trailing edge of the innermost enclosing node.',
 ['inputs'],'every well-formed forest, every start edge, every predicate, every number of steps in both directions',
 'Tests compare a few traversals of one or two fixed trees with literal strings, mostly in forward direction.',
 [FO],[('forest_iterator / forest_const_iterator increment, decrement',FO),('child_iterator, edge_iterator, reverse_fullorder_iterator, depth_fullorder_iterator, filter_fullorder_iterator',FO),('find_parent, has_children, child_begin, child_end',FO)])
p('C03','Forest size, equality, copy, move and swap',
 'size() always equals the number of nodes and empty() says whether it is zero, after any history of mutations, splices between forests, copies, moves and swaps. Two forests compare equal exactly when they have the same shape and equal values in the same order, and equal_shape says exactly whether the shapes agree; a copy is equal to and independent of its source, and a move or swap transfers the exact tree and leaves the moved-from forest empty and usable.',
 ['inputs','histories'],'every forest and every history of operations, in particular those that leave the cached size unknown',
 'The cached size can be valid, stale-marked or recomputed; the tests visit only some of the combinations of cache state and operation.',
 [FO],[('forest::size, size_valid, _size bookkeeping in insert/erase/splice',FO),('operator==, copy/move constructors and assignments, swap',FO)])
p('C04','Forest flatten, unflatten and transcribe round-trip',
 'Flattening any forest range and unflattening the result into an empty forest reproduces a forest equal to the original. Transcribing a forest, with or without a projection or filter on what is copied, yields the image of exactly the accepted nodes with their nesting and order.',
 ['inputs'],'every forest and every projection/predicate','The test transcribes two fixed trees and round-trips one.',
 ['include/stlab/forest_algorithms.hpp'],[('flatten/unflatten/transcribe/transcribe_iterator','include/stlab/forest_algorithms.hpp')])
p('C05','Type-erased task owns and invokes its callable correctly',
 'A task holds at most one callable, moved in once; invoking the task invokes exactly that callable with the given arguments and passes back its result or exception, and the callable (small or large, throwing or not on move) is destroyed exactly once whatever sequence of move construction, move assignment, swap-like reassignment, reset and destruction happens. Emptiness, target type and target access always report the callable actually held; a default-constructed, null or reset task is empty and invoking it reports a bad call.',
 ['inputs','histories'],'every callable type (size, alignment, copyability, noexcept-ness) and every sequence of operations',
 'Tests use a handful of callables and short sequences; leaks and double destruction are not observed.',
 ['include/stlab/concurrency/task.hpp'],[('task_ special members, concept table (small/large/empty)','include/stlab/concurrency/task.hpp')])
p('C06','Thread-pool queues run every task exactly once, by priority, FIFO',
 'Every task submitted to the portable pool executor is executed exactly once, also when it is submitted concurrently with others, with worker shutdown, or from inside a running task, and a worker never sleeps while its queue holds work it was signalled for. Within one queue the next task handed out is always one of highest priority, and among equal priorities the earliest submitted.',
 ['schedules','histories','inputs'],'all interleavings of any number of submitters, stealers and shutdown, all priority mixes',
 'Tests submit a few batches; the order within a queue and the wake-up paths depend on schedules the tests cannot force.',
 ['include/stlab/concurrency/default_executor.hpp'],[('notification_queue push/pop/try_push/try_pop/done','include/stlab/concurrency/default_executor.hpp'),('priority_task_system::execute/run/wake/join, waiter','include/stlab/concurrency/default_executor.hpp')])
p('C07','Serial queue: FIFO, one at a time, nothing lost',
 'Tasks given to one serial queue start in the order they were submitted, never overlap, and each runs exactly once on the underlying executor, whatever threads submit them and whether the underlying executor runs tasks inline or concurrently. A submission is never stranded: whenever the queue is non-empty, a drain is running or scheduled, in both the single-task and all-tasks modes (tasks are assumed not to throw).',
 ['schedules','histories'],'every interleaving of submissions and drains, both schedule modes, every executor behaviour',
 'The tests check final results of a couple of queues on the default executor; overlap and lost wake-ups occur only in narrow windows.',
 ['include/stlab/concurrency/serial_queue.hpp'],[('serial_instance_t::enqueue/kickstart/all/single/empty','include/stlab/concurrency/serial_queue.hpp')])
p('C08','Timer: never early, deadline order, nothing lost',
 'A task scheduled on the system timer is started exactly once and not before its deadline; among waiting tasks the earliest deadline is taken first, and a task scheduled with an earlier deadline than the ones already waiting is not delayed behind them. Stopping the timer terminates its thread without running a task early.',
 ['schedules','histories','inputs'],'all deadlines, all arrival orders, all interleavings of submit and run, spurious wake-ups included',
 'Tests sleep for fixed times and compare a few durations.',
 ['include/stlab/concurrency/system_timer.hpp'],[('priority queue of timed elements, run loop, operator()','include/stlab/concurrency/system_timer.hpp')])
p('C09','Each continuation runs exactly once, on its executor, after the value',
 'Every continuation attached to a future is scheduled exactly once on the executor requested for it, after the result (value or exception) is in place, no matter whether it was attached before, while or after the future became ready, nor from how many threads or copies. Continuations attached before readiness are scheduled in attachment order, and a future observed ready stays ready with the same result for all copies.',
 ['schedules','histories'],'all interleavings of completing a future with any number of threads attaching, copying and dropping it',
 'The window between readiness check and list insertion is a few instructions; tests run without schedule control.',
 [FU],[('shared_base set/then/recover/_detach, _ready and _mutex',FU)],[dict(name='_ready, _result/_exception, _then',meaning='completion state and pending continuations',where=FU)])
p('C10','Promises: function runs once; broken promise reported',
 'A packaged task invokes its function at most once and only while some future still wants the result, and stores exactly the returned value or the thrown exception as the result of its futures; a function returning a future yields that inner result. If the producing task is destroyed (or overwritten) without having been run, every future waiting on it becomes ready with the broken-promise error instead of waiting forever.',
 ['histories','inputs','schedules'],'every order of moving, overwriting, invoking and dropping the task, its futures and continuations; throwing functions',
 'Tests cover the straight-line cases with int/void/string results.',
 [FU],[('packaged_task, shared<R(Args...)>, reduce_, promise destructor paths',FU)])
p('C11','Continuation chaining delivers values and errors faithfully',
 'then() passes exactly the value of its antecedent to the continuation, skips the continuation and forwards the same exception when the antecedent failed; recover() is called with the completed antecedent in both cases, detach keeps the work alive. Reading the result (try-get, ready-get, await) returns the value once moved from the last handle or copied otherwise, rethrows a stored exception every time, and reports "not ready" only if not ready.',
 ['inputs','histories','schedules'],'all result types (void, copyable, move-only), lvalue and rvalue use, chains of any length, success and failure',
 'Tests sample chains of length two or three with int and a move-only type.',
 [FU,'include/stlab/concurrency/await.hpp','include/stlab/concurrency/ready_future.hpp'],[('future::then/recover/detach/get_try/get_ready, make_ready_future, make_exceptional_future',FU),('await, await_for','include/stlab/concurrency/await.hpp')])
p('C12','when_all: complete results in order, or the first error',
 'A when_all future becomes ready exactly once: after all its inputs succeeded, its continuation receives every input value at the position of that input, or, as soon as one input failed, it fails with an exception of a failed input and the continuation is not called. This holds for argument and range forms, any number of inputs including zero, void and non-void mixes, and inputs completing concurrently in any order.',
 ['schedules','inputs','histories'],'any number of inputs, any completion order and concurrency, any subset failing',
 'Tests fix the number of inputs to at most four and rely on whatever completion order occurs.',
 [FU],[('when_all_shared, context_result, shared_context counters',FU)])
p('C13','when_any: first success wins, error only if all fail',
 'A when_any future becomes ready exactly once: the first input to succeed delivers its value and its index to the continuation, later results are ignored, and only when every input failed does it fail, with an exception of one of them. This holds for argument and range forms, void and non-void, an empty range (broken promise), and inputs completing concurrently in any order.',
 ['schedules','inputs','histories'],'any number of inputs, any completion order and concurrency, any subset failing',
 'Races between the first success and other completions are not controlled by the tests.',
 [FU],[('when_any_shared, context_result with failure counting',FU)])
p('C14','Channel process: every message once, in order, one step at a time',
 'Every value sent into a channel is delivered exactly once, in order per sender, to each attached process while it accepts input; steps of one process never overlap and are executed on its executor, and whenever a process has a message or a due timeout it is scheduled to run (no lost wake-up), including when its buffer limit made it refuse and later accept input.',
 ['schedules','histories','inputs'],'any interleaving of sends, steps, readiness changes and flow-control transitions; any buffer size',
 'Tests use single-threaded executors or short bursts and compare final sums.',
 [CH],[('shared_process run/step/task_done/clear_to_send/enqueue/dequeue',CH)])
p('C15','Joining channels combine inputs as their strategy says',
 'A zip-with process consumes the i-th value of every input together as argument i in input order; a round-robin merge takes values strictly alternating over its inputs; an unordered merge passes each value on once in arrival order per input; none drops, duplicates or reorders values of one input. This holds for any arrival pattern and any input count.',
 ['inputs','schedules','histories'],'all arrival orders over all inputs, any number of inputs',
 'Tests send a few fixed sequences.',
 [CH],[('zip_with_queue_strategy, round_robin_queue_strategy, unordered_queue_strategy, default_queue_strategy',CH)])
p('C16','Channel close, errors and annotations take effect exactly once',
 'When the last sender of a channel is gone (destroyed, overwritten or closed), the process is closed exactly once after all earlier messages, downstream processes follow, and no earlier; likewise upstream stops when its last receiver is gone. Buffer-size and executor annotations apply in whatever order they are combined, attaching to a channel already set ready is rejected with the documented error, and an exception sent or thrown in a step reaches the process error handler or propagates downstream.',
 ['histories','schedules','inputs'],'every history of copying, moving, assigning, dropping and closing senders and receivers; all annotation orders',
 'Tests drop senders in one or two orders and test two annotation orders.',
 [CH],[('sender/receiver special members, add/remove_sender/receiver, annotated_process operators, process_close_or_error',CH)])
p('C17','Pre-exit actions run once, last registered first',
 'Every action registered to run before process exit is executed exactly once when pre-exit is triggered, the most recently registered pending action first, and the registry lock is not held during an action. Registering further actions while pre-exit is running (from an action or another thread) is allowed, and they are run too; registering after pre-exit has completed, triggering it a second time, or exiting with actions never run is a precondition violation that is reported (assertion).',
 ['schedules','histories'],'any number of actions, registration from any threads, also while pre-exit runs','No test covers it beyond normal shutdown.',
 ['src/pre_exit.cpp','include/stlab/pre_exit.hpp'],[('at_pre_exit, pre_exit, pre_exit_stack','src/pre_exit.cpp')])
p('C18','Linked-sequence algorithms keep exactly the intended links',
 'Reversing a linked node range, reversing it onto another node or up to a marker, splicing a node range and skipping a node yield exactly the specified sequence: the touched nodes in the stated new order, every other node unchanged and still reachable, and the returned iterators pointing at the documented nodes.',
 ['inputs'],'any linked sequence of any length, any valid sub-range, forward and bidirectional links',
 'Only used indirectly through one forest reverse test.',
 ['include/stlab/algorithm/reverse.hpp','include/stlab/iterator/set_next.hpp'],[('reverse_append, reverse_nodes, reverse_until, splice_node_range, skip_next_node, skip_node','include/stlab/algorithm/reverse.hpp')])
p('C19','Tuple algorithms visit each element once, in order',
 'The tuple utilities call the given function or predicate once per element in index order, with the documented index and offset, on the right element; find, any-of/all-of/for-each-n and index-apply forms return the first match or the stated aggregate, and move or copy elements as documented.',
 ['inputs'],'any tuple of any element types and length','Tests use two or three fixed tuples.',
 ['include/stlab/concurrency/tuple_algorithm.hpp','include/stlab/functional.hpp','include/stlab/utility.hpp'],[('tuple_for_each, tuple_find, any_of/all_of..., invoke_ etc.','include/stlab/concurrency/tuple_algorithm.hpp')])
p('C20','Scoped values and locks are released exactly at scope end',
 'A scope call runs its body exactly once with the scoped resource alive, returns the body result unchanged, and destroys the resource exactly once after the body on both normal and exceptional exit. In progress tracking the reported total is always the number of wrapped tasks alive (copies included, moved-from and overwritten ones not), each invocation that finishes counts one completion, and the progress callback then receives the completed count and the total.',
 ['inputs','histories'],'any resource and callable types, throwing bodies, copies and assignments of trackers','No test throws from a scope body; progress has no test.',
 ['include/stlab/scope.hpp','include/stlab/concurrency/progress.hpp'],[('scope','include/stlab/scope.hpp'),('progress_tracker','include/stlab/concurrency/progress.hpp')])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
