import json
S='include/boost/lockfree/stack.hpp';Q='include/boost/lockfree/queue.hpp';R='include/boost/lockfree/spsc_queue.hpp'
F='include/boost/lockfree/detail/freelist.hpp';TP='include/boost/lockfree/detail/tagged_ptr_ptrcompression.hpp';TD='include/boost/lockfree/detail/tagged_ptr_dcas.hpp'
CP='include/boost/lockfree/detail/copy_payload.hpp';PA='include/boost/lockfree/detail/parameter.hpp';PO='include/boost/lockfree/policies.hpp'
HOOK="instrumented atomic<> substituted in detail/atomic.hpp under BOOST_LOCKFREE_VERIF_HOOKS"
P=[]
def p(id,title,st,over,qt,why,files,state,mech,obs,hook=HOOK):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
p('C01','stack is a linearizable LIFO stack',
 "Whatever calls of push, bounded_push, pop, consume_one and consume_all concurrent threads make on a stack, all results are explained by one order of the individual pushes and removals that respects real time and in which the container is a LIFO stack. Every pushed element is delivered to at most one consumer, with the value that was pushed, and nothing is lost or invented. A removal reports an empty stack only if the stack was empty at some moment during the call.",
 ['schedules','histories','configurations'],"all interleavings of any number of threads and operations; node-based, fixed_sized and capacity<> stacks; any prior content",
 "The tests run a few real threads for a while and only compare element counts and sums at the end: they do not control the schedule, do not check order at all under concurrency, and reach an ABA or lost-update window only by luck.",
 [S,F,TP],[('tos','tagged handle of the top node','stack.hpp tos'),('pool','free nodes','stack.hpp pool'),('node::next','link below','stack.hpp node')],
 [('CAS of tos with tag bump on removal','stack.hpp consume_one'),('CAS of tos on push','stack.hpp link_nodes_atomic'),('node recycling','freelist.hpp')],['return values and delivered elements of every call'])
p('C02','queue is a linearizable FIFO queue',
 "Whatever calls of push, bounded_push, pop, consume_one and consume_all concurrent threads make on a queue, all results are explained by one order of the individual pushes and pops that respects real time and in which the container is a FIFO queue. Every pushed element is delivered to at most one consumer, intact, and nothing is lost or invented. A pop reports an empty queue only if the queue was empty at some moment during the call.",
 ['schedules','histories','configurations'],"all interleavings of any number of threads and operations; node-based, fixed_sized and capacity<> queues; any prior content",
 "The tests compare sums of what real threads pushed and popped; they neither check order under concurrency nor steer into the windows (lagging tail, recycled dummy node, stale next) where the algorithm can go wrong.",
 [Q,F,TP,CP],[('head_/tail_','tagged handles of the dummy and the last node','queue.hpp'),('node::next','tagged link','queue.hpp node')],
 [('tail/next snapshot re-validation','queue.hpp do_push'),('head snapshot re-validation, copy before CAS','queue.hpp pop'),('helping a lagging tail','queue.hpp do_push, pop'),('tag bump when a node is reused','queue.hpp node constructor')],['return values and delivered elements of every call'])
p('C03','spsc_queue is FIFO between one producer and one consumer',
 "With one producer thread and one consumer thread, and any mix of single-element and bulk operations, the elements delivered to the consumer are exactly the elements accepted from the producer, in order, each once and intact. A single push fails or a bulk push accepts fewer elements than offered only if that little space was available at some moment during the call, and a removal returns nothing or less than requested only if that few elements were available at some moment during the call. Nothing accepted is ever overwritten before it is consumed.",
 ['schedules','inputs','configurations'],"all interleavings of one producer and one consumer; all ring offsets, capacities and batch sizes, compile-time and run-time sized",
 "The tests use large rings and only check totals; which operation wraps at which ring offset against which state of the other side is never controlled.",
 [R],[('write_index_','next slot to write, owned by the producer','spsc_queue.hpp ringbuffer_base'),('read_index_','next slot to read, owned by the consumer','spsc_queue.hpp ringbuffer_base')],
 [('one slot kept free','spsc_queue.hpp max_size = MaxSize + 1'),('index arithmetic modulo max_size','next_index, read_available, write_available'),('two-section copies','push(range), pop, consume_all')],['return values and delivered elements of every call'])
p('C04','bulk stack operations are atomic and correctly ordered',
 "A range push appears in the stack all at once: the accepted prefix of the range becomes visible in one step, with no element of another thread in between, so that it is popped in reverse range order, and the returned iterator separates what was pushed from what was not. consume_all_atomic and consume_all_atomic_reversed remove the whole content of the stack at one moment and hand every removed element to the functor exactly once, in LIFO order respectively in insertion order, and return their number. An empty range pushes nothing.",
 ['schedules','histories','configurations'],"all interleavings with concurrent pushes and pops; all range lengths including empty and longer than the free capacity; all configurations",
 "Existing tests call the bulk operations from one thread (or concurrently but only count), so splitting a bulk operation into several steps passes them.",
 [S,F],[('tos','top of stack','stack.hpp')],[('private list, then one CAS','stack.hpp prepare_node_list + link_nodes_atomic'),('swap tos for null with one CAS','stack.hpp consume_all_atomic*'),('in-place list reversal','stack.hpp consume_all_atomic_reversed')],['returned iterators and counts, order of functor calls'])
p('C05','internal nodes are never shared or recycled while in use (ABA)',
 "At no time is one internal node handed out to two owners, held by an element and by the free list at once, or lost from both. This holds for every interleaving of concurrent node allocations and releases, in particular when a thread is suspended inside an operation while other threads remove, recycle and re-insert the same nodes fewer than 2^16 times, and for both kinds of free list.",
 ['schedules','histories','configurations'],"all interleavings of allocate/release on the node-based and the index-based free list, directly and through stack and queue; recycle counts below the tag period of a suspended thread",
 "An ABA needs one thread stopped between reading a handle and its compare-and-swap while others recycle precisely that node; real threads do this too rarely for a test to see, and the tests never check node identity beyond a few allocations.",
 [F,S,Q,TP],[('pool_','tagged head of the free list','freelist.hpp'),('freelist_node::next','link overlaid on the node storage','freelist.hpp')],
 [('tag bump on every allocation','freelist.hpp allocate_impl'),('tags bumped by every removal from stack/queue','stack.hpp, queue.hpp'),('tag of queue links survives in the free list','freelist.hpp set_ptr/set_index, queue.hpp node constructor')],['node addresses handed out and taken back; elements seen through the containers'])
p('C06','capacity is exact, conserved and reported truthfully',
 "A fixed-sized or capacity<> stack, queue or spsc_queue of capacity N always holds N elements and never more. A push on it, or a bounded_push on any stack or queue, fails only if at some moment during the call every node was holding an element or was in the hands of a concurrent operation, and a failed push leaves the container unchanged. After any history of concurrent and sequential operations has finished, exactly the original capacity is available again: no node is lost or gained.",
 ['schedules','histories','configurations','inputs'],"all histories of pushes (also failing and bulk ones) and removals, all capacities from 1 on, all configurations",
 "Tests fill a container once or twice in one thread; the loss of one node per rare event (failed push, lost race, functor path) is invisible until the pool has drained.",
 [F,S,Q,R],[('pool_','free nodes','freelist.hpp'),('indices','ring indices','spsc_queue.hpp')],[('one extra dummy node','queue.hpp capacity + 1'),('release of the node after removal','stack.hpp, queue.hpp destruct'),('one extra slot','spsc_queue.hpp MaxSize + 1')],['push results; number of pushes accepted by a drained container'])
p('C07','memory comes only from the given allocator and only when allowed',
 "Containers with capacity<> never use the allocator; fixed_sized ones and run-time sized spsc_queues use it only on construction and destruction; bounded_push never uses it; push on a node-based stack or queue uses it only if the free nodes were exhausted at some moment during the call. Everything allocated is returned to an equal allocator exactly once with the size it was requested with, nothing is returned before the container is destroyed, and nothing is still allocated afterwards.",
 ['schedules','histories','configurations','fault_sequences'],"all operation histories and interleavings, all configurations, stateful allocators, preallocation through constructors, reserve and reserve_unsafe",
 "The tests use a default or a trivially wrapped allocator without accounting; a premature release, size mismatch or allocation on a path promised to be allocation-free goes unnoticed.",
 [F,S,Q,R,PA],[('pool_','free nodes','freelist.hpp')],[('nodes are cached until destruction','freelist.hpp deallocate / destructor'),('Bounded and fixed-size variants never allocate','freelist.hpp allocate_impl'),('rebound allocator copied in','parameter.hpp extract_allocator')],['calls on an accounting allocator'])
p('C08','elements are constructed, copied out and destroyed exactly once',
 "Every element object a stack or spsc_queue stores is a copy made on insertion, is only accessed between that construction and its destruction, and is destroyed exactly once: when it is removed, by reset, or when the container is destroyed. Elements handed to a functor or copied to the caller are alive and complete at that time. A queue delivers every element byte-for-byte as it was pushed.",
 ['schedules','histories','configurations'],"all histories and interleavings of insertions, removals, reset and destruction with content left inside; element types with non-trivial copy and destruction",
 "Existing tests count instances for two types at the end of sequential use; double destruction balanced by a leak, access after destruction or destruction of an element on its way to a concurrent consumer remain unseen.",
 [S,Q,R,F,CP],[('node::v, ring slots','stored element','stack.hpp, spsc_queue.hpp')],[('destructor call in destruct','freelist.hpp'),('destroy after copy / functor','stack.hpp, spsc_queue.hpp copy_and_delete, run_functor_and_delete'),('drain on destruction','~stack, ~runtime_sized_ringbuffer, ~compile_time_sized_ringbuffer')],['constructor, copy, assignment and destructor calls of an instrumented element type'])
p('C09','insertion happens-before removal (memory ordering)',
 "In the C++ memory model, everything a thread did before it inserted an element happens-before what the receiving thread does after removing that element, and every access to a stored element whose result is used is ordered by happens-before with its construction and with the reuse of its storage. This holds because of the ordering of the atomic operations used, not because of the hardware at hand.",
 ['schedules','configurations'],"all interleavings and all platforms the C++ memory model allows; stack, queue, spsc_queue; node-based and array-based storage",
 "The tests run on x86, where almost every ordering is as strong as acquire/release at run time; a weakened ordering produces identical test results.",
 [S,Q,R,F],[('orderings','memory_order arguments of atomic operations','all files')],[('release store / acquire load of ring indices','spsc_queue.hpp'),('sequentially consistent CAS on tos, next, tail, pool','stack.hpp, queue.hpp, freelist.hpp'),('consume/acquire loads','stack.hpp, queue.hpp')],['ordering arguments and reads-from of every atomic operation, element accesses'])
p('C10','operations are non-blocking',
 "If all other threads stop at arbitrary points inside their operations for ever, a thread still finishes any thread-safe operation of stack, queue or spsc_queue within a bounded number of its own steps. No operation retries for ever unless other threads keep completing operations, and every spsc_queue operation finishes in a number of steps independent of the other thread. is_lock_free() answers, at any time, whether all atomic objects that the container's operations use are lock-free on the platform.",
 ['schedules','crash_points','configurations'],"every point at which the other threads may stop; every reachable content; spurious failures of weak compare-and-swap",
 "Tests never stop a thread inside an operation; a lock or a wait for the other side passes as long as everybody keeps running.",
 [S,Q,R,F],[('tail_ behind the last node','unfinished push','queue.hpp')],[('helping a lagging tail','queue.hpp do_push, pop'),('retry only after a failed CAS','stack.hpp, freelist.hpp'),('no loops over the other index','spsc_queue.hpp')],['number of own atomic steps until return'])
p('C11','every stack operation has its sequential meaning in every configuration',
 "From any content, each call on a stack used by one thread (thread-safe and unsynchronized_ variants of push, bounded_push, range push, pop to T or to a convertible type, consume_one, consume_all, consume_all_atomic, consume_all_atomic_reversed, empty, reserve) returns and delivers what the LIFO model prescribes and leaves the model's content behind. This is so for every overload, every allowed policy combination and every mix of them.",
 ['inputs','histories','configurations'],"all operation sequences over all overloads (also mixing synchronized and unsynchronized ones), all policy combinations, all contents",
 "The tests call each operation in a few fixed sequences and never most overload/configuration combinations (range push on fixed-sized stacks did not even compile).",
 [S,F,PA,PO,CP],[('content','sequence of elements','stack.hpp')],[('overload pairs for Functor& and Functor const&','stack.hpp'),('handle/pointer conversion of the pool','freelist.hpp')],['return values and delivered elements'],None)
p('C12','every queue operation has its sequential meaning in every configuration',
 "From any content, each call on a queue used by one thread (thread-safe and unsynchronized_ variants of push, bounded_push, pop to T or to a convertible type, consume_one, consume_all, empty, reserve) returns and delivers what the FIFO model prescribes and leaves the model's content behind. This is so for every overload, every allowed policy combination and every mix of them.",
 ['inputs','histories','configurations'],"all operation sequences over all overloads (also mixing synchronized and unsynchronized ones), all policy combinations, all contents",
 "The tests call each operation in a few fixed sequences and never most overload/configuration combinations (unsynchronized_push on fixed-sized queues did not even compile).",
 [Q,F,PA,PO,CP],[('content','sequence of elements','queue.hpp')],[('synchronized and unsynchronized loops','queue.hpp'),('handle/pointer conversion of the pool','freelist.hpp')],['return values and delivered elements'],None)
p('C13','every spsc_queue operation has its sequential meaning at every ring offset',
 "From any content and after any number of earlier operations, each call on a spsc_queue (push of one element, array, pointer and count, or range; pop into nothing, a value, an array, pointer and count, or output iterator; consume_one, consume_all, front, empty, read_available, write_available, reset) returns and delivers what a FIFO of the given capacity prescribes and leaves the model's content behind. Bulk operations transfer the longest prefix that fits or is available.",
 ['inputs','histories','configurations'],"all operation sequences over all overloads, capacities, ring offsets and batch sizes; compile-time and run-time sized; trivially and non-trivially destructible elements",
 "The tests exercise a handful of offsets and batch sizes on fixed capacities; a wrap-around error at one particular offset and size is not sampled.",
 [R,CP,PA],[('content','sequence of elements','spsc_queue.hpp'),('ring offset','position of the indices','spsc_queue.hpp')],[('index arithmetic and two-section copies','spsc_queue.hpp ringbuffer_base')],['return values, delivered elements, returned iterators'],None)
p('C14','failing allocations and throwing copies change nothing and leak nothing',
 "If the allocator or the copy constructor of an element throws during a push (single or range) or during construction of a container, the exception reaches the caller, the content of the container is as before the call, no capacity is lost, no element copy stays alive and no memory leaks. The container remains fully usable. A rejected construction (size above the limit) throws and allocates nothing that is not returned.",
 ['fault_sequences','configurations'],"every allocation and every copy in every operation failing in turn, from every small content, in every configuration",
 "The tests contain no failing allocator and no throwing element type.",
 [F,S,Q,R],[('pool_','free nodes','freelist.hpp')],[('rollback of a partly built list','stack.hpp prepare_node_list'),('node returned on throw','freelist.hpp construct'),('rollback of ring sections','spsc_queue.hpp push(range)')],['exceptions, content, capacity, live copies and outstanding memory after each injected failure'])
p('C15','compile-time sized containers are position independent',
 "A stack, queue or spsc_queue with capacity<> (and only trivially relocatable state of its own) keeps no absolute address of its own storage: when its memory is mapped at two addresses, as in shared memory, operations through one mapping and operations through the other mapping act on one and the same container with unchanged semantics.",
 ['histories','configurations'],"all operation sequences alternating between mappings, all capacities",
 "No test maps a container twice; an absolute pointer stored in it works in a single mapping.",
 [S,Q,R,F],[('indices instead of pointers','node links and ring indices','freelist.hpp tagged_index, spsc_queue.hpp storage_')],[('index-based handles relative to nodes()','freelist.hpp fixed_size_freelist'),('in-object storage','spsc_queue.hpp compile_time_sized_ringbuffer')],['results of operations through both mappings'],None)
p('C16','observers tell the truth about the allowed moments',
 "With no concurrent operation empty(), read_available(), write_available() and front() describe the content exactly. Concurrently, stack empty() answers according to some moment during the call; read_available() called by the consumer never exceeds what can then be removed and write_available() called by the producer never exceeds what can then be pushed, each being exact at some moment during the call; front() refers to the oldest element, which the next removal delivers. Observers change nothing.",
 ['schedules','histories','configurations'],"all interleavings of observers with the other side's operations, all ring offsets and contents",
 "Tests call the observers in quiescent states only.",
 [S,Q,R],[('tos, head_/tail_, indices','what observers read','stack.hpp, queue.hpp, spsc_queue.hpp')],[('single load','stack.hpp empty'),('handle comparison','queue.hpp empty'),('index arithmetic on acquire loads','spsc_queue.hpp read_available, write_available')],['results of observers and of the following operations'])
p('C17','tagged handles keep address and tag independent and exact',
 "A tagged pointer or index returns exactly the address/index and the tag it was given; setting one never changes the other; the next tag is the tag plus one modulo the number of tags (2^16 for compressed pointers and for indices) and does not leak into the address, also at the wrap-around; two handles are equal exactly when both address and tag are equal.",
 ['inputs'],"all tags (all 2^16), boundary and random user-space addresses, all indices; compressed and double-width representation",
 "The one unit test checks a few values of the compiled representation.",
 [TP,TD,F],[('tag bits','upper 16 bits or separate word','tagged_ptr_ptrcompression.hpp, tagged_ptr_dcas.hpp, freelist.hpp tagged_index')],[('masking and packing','tagged_ptr_ptrcompression.hpp pack_ptr, extract_ptr, extract_tag'),('modular increment','get_next_tag')],['accessor results'],None)
p('C18','size limits and preallocation are honoured',
 "An array-based stack or queue works at every size up to the documented 16-bit limit, with every element slot usable and distinct, and a run-time request beyond the limit is refused with an exception. A node-based stack or queue constructed for n elements, or after reserve(n)/reserve_unsafe(n), accepts n further elements through bounded_push without allocating.",
 ['inputs','configurations'],"all sizes 0..65535 at the boundaries and sampled in between; every way of preallocating, before and after use",
 "Tests use small sizes; index truncation, a limit off by one, or a miscounted preallocation shows only near the limits.",
 [F,S,Q],[('node indices','16-bit handles','freelist.hpp tagged_index')],[('size checks','freelist.hpp runtime_sized_freelist_storage, stack.hpp static assertion'),('preallocation','freelist.hpp constructor, reserve')],['accepted pushes, exceptions, allocator calls'],None)
p('C19','memory is touched only where it belongs to the container, the caller or the element',
 "A container reads and writes only its own object, blocks it has obtained from its allocator and not yet returned, and the buffer the caller passes to a call, never beyond the end of any of them, in every configuration, for every element size and alignment (up to 128 bytes), wherever the object lies. Every element lives inside the container's memory at an address aligned for its type and shares no byte with another element, and nothing but the element's own functions writes to its bytes while it lives. Atomic objects are naturally aligned.",
 ['schedules','inputs','histories','configurations'],"all operation sequences and interleavings over all overloads, ring offsets, batch sizes and capacities; element layouts from 2 to 128 bytes and alignments from 1 to 128; objects at every allowed alignment, allocators returning minimally aligned blocks; buffers with exact bounds",
 "The tests use ints and std types in aligned locations with large buffers: an access one element past a block or a misaligned element goes unnoticed.",
 [S,Q,R,F,CP],[('storage_, array_','ring memory','spsc_queue.hpp'),('data, nodes_','node array','freelist.hpp')],[('alignment and slack of the node array','freelist.hpp compiletime_sized_freelist_storage'),('aligned storage of the ring','spsc_queue.hpp compile_time_sized_ringbuffer'),('bounds of the two-section copies','spsc_queue.hpp ringbuffer_base'),('order of reading a link and returning a node','freelist.hpp free_nodes')],['addresses of all memory accesses of the compiled code, allocator calls, element lifetimes'])
p('C20','containers are independent of one another',
 "Every container is explained by the calls made on it alone. Any number of containers of the same type, used in turn by one thread or concurrently by several, each behave exactly as if they were the only one: no call on one changes the content, the free capacity, the memory or the results of another, whichever container a thread used before, whether one of them is destroyed and constructed again (also in the same place), and also when a call on one is made from inside the functor or the output iterator of a call on another.",
 ['schedules','histories','configurations'],"all interleavings and sequences of calls on several stacks, queues or ring buffers of the same type, construction and destruction included, nested calls, all configurations",
 "Every test uses one container at a time: state that is shared by accident (static, thread-local, keyed by address, or left over from a destroyed container) is invisible to them.",
 [S,Q,R,F],[('tos, head_, tail_, pool','own state of a container','stack.hpp, queue.hpp'),('write_index_, read_index_','own state of a ring','spsc_queue.hpp'),('allocator','own allocator of a container','freelist.hpp')],
 [('no shared state','all headers'),('functors called during a removal','stack.hpp, queue.hpp, spsc_queue.hpp consume_*')],['return values and delivered elements of every call, allocator used for every block'])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
