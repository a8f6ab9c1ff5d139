#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The property texts live here so that the file stays well-formed.
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
SP='code/xmem/basic_shared_ptr.hpp'; WP='code/xmem/basic_weak_ptr.hpp'; CB='code/xmem/common_control_block.hpp'
UP='code/xmem/unique_ptr.hpp'; ES='code/xmem/basic_shared_from.hpp'; ST='code/xmem/basic_atomic_shared_ptr_storage.hpp'
AR='code/xmem/atomic_ref_count.hpp'; LR='code/xmem/local_ref_count.hpp'; AL='code/xmem/allocator.hpp'
CP='code/xmem/cb_ptr_pair.hpp'; XS='code/xmem/std_helpers.hpp'; DD='code/xmem/default_delete.hpp'
SPH='code/xmem/shared_ptr.hpp'; LPH='code/xmem/local_shared_ptr.hpp'; OS='code/xmem/ostream.hpp'; SL='code/xmem/bits/spinlock.hpp'
RB='code/xmem/allocator_rebind.hpp'
nores='Only two ref-counter unit tests run here; the upstream pointer tests walk a few fixed scripts with at most four pointers.'

p('C01','A shared object is destroyed exactly once, when its last owner goes',
 'An object managed by shared pointers (atomic, local or with a user-supplied control block; created from a raw pointer, a raw pointer with a deleter, a unique_ptr of any deleter kind, an array, or a make function) stays alive as long as at least one shared pointer owning it exists, whatever sequence of copies, moves, converting and aliasing copies, assignments, swaps, resets and storage operations led there. At the moment the last owning pointer stops owning it, the object is destroyed exactly once, by the deleter it was created with (called with the original pointer, on the dynamic object), and never earlier, later or not at all. Reference counts far beyond 16 bits are handled the same way.',
 ['histories','configurations'],'every sequence of shared-pointer operations over every way of creating an owner, every pointer type conversion and every control block flavour',
 nores+' The property quantifies over all operation histories and creation routes, so no script settles it.',
 [SP,CB,CP,UP,AR,LR],[('copy/move/converting constructors and assignments, swap, reset, destructor',SP),('strong count drives destruction of the resource',CB),('pair copy/move with source reset',CP)],
 [('strong count','number of owning shared pointers of one owner',CB)],['destructor and deleter calls','live heap blocks'])
p('C02','Shared pointer observers always agree with the ownership history',
 'After any sequence of operations, every shared pointer reports the address, truth value, owner and use count that follow from the history: get(), operator bool, *, -> and [] give the pointer last put there; use_count() is exactly the number of shared pointers sharing that owner (0 without owner); owner()/t_owner(), same_owner, no_owner and owner_before tell apart exactly the pointers whose owners differ. A moved-from or reset pointer is null and ownerless, swap exchanges pointer and owner, self-assignment, self-move and self-swap change nothing, and converting copies and moves adjust the address as the language does.',
 ['histories'],'every sequence of operations, observed on every pointer after every step',
 nores+' They look at a handful of observers at chosen points.',
 [SP,CP,CB,LR,AR],[('observers',SP),('pair assignment and reset',CP),('count()',AR)],
 [('pointer/owner pair','what a pointer refers to and which owner it shares',CP)],['get/use_count/owner/bool','same_owner/no_owner/owner_before'])
p('C03','Weak pointers observe an owner without keeping its object alive',
 'A weak pointer never delays destruction of the object; expired() is false and lock() returns a shared pointer with the recorded (possibly converted or aliased) address, sharing that very owner, exactly while at least one shared pointer owns the object, and afterwards lock() is null, use_count() is 0 and expired() is true for good. The weak pointer keeps its owner identity after expiry (it stays true as a boolean, with the same owner) through copies, moves, swaps, converting copies (including to a virtual base) and aliasing copies, and loses it only when reset or moved from. The owner\'s bookkeeping storage is released exactly once, when the last shared and weak pointer to it are both gone.',
 ['histories'],'every interleaving in time of strong and weak operations over owners that are alive or already expired',
 nores+' Weak pointers are checked in four short scripts.',
 [WP,SP,CB,CP,LR,AR],[('lock via increment-if-not-zero',WP),('weak count with one reference held by all strong owners together',CB)],
 [('weak count','weak pointers plus one while strong owners exist',CB)],['lock/expired/use_count/owner/bool','live heap blocks'])
p('C04','Assignment and reset are safe when the released object reaches back',
 'Assigning to or resetting a shared pointer is safe and gives the normal result when the right-hand side lives inside the object that the assignment releases (for example advancing a list head to its own next, by copy, by move, or from a unique_ptr member) and when destructors run by it touch the very pointer being changed. Such code sees the pointer already holding its new value (null for reset) before the old object is destroyed, so re-entrant resets, assignments and reads neither touch freed memory nor lose or release a reference twice.',
 ['histories','inputs'],'every pointer graph (lists, trees, cycles, self-links) and every re-entrant destructor action on it',
 nores+' No test assigns from inside the released object or re-enters a pointer from a destructor.',
 [SP,CP],[('order of acquiring the new and releasing the old owner in assignments and reset',SP)],[],['destruction log, ASan, pointer values seen from destructors'])
p('C05','Aliases and pointer casts share the owner and point where they should',
 'An aliased shared or weak pointer shares the source\'s owner (keeping the whole object alive, or observing it) while pointing at exactly the given address; make_aliased from a pointer without owner is null and ownerless, and the aliasing constructor of an ownerless source gives a pointer that owns nothing. For owning sources static, const, reinterpret and dynamic pointer casts give a pointer of the address the language cast gives, sharing the owner and counted as one more use, across multiple inheritance; a null source, or a dynamic cast that fails, gives a null ownerless pointer and leaves the counts unchanged.',
 ['inputs','histories'],'every class layout position (first, second, virtual base, const, void), every owner state and every order of releasing alias and original',
 nores+' One multiple-inheritance object and a few aliases are tried.',
 [SP,WP,CP],[('aliasing constructors, make_aliased and the casts',SP),('aliasing weak constructors',WP)],[],['get/owner/use_count of results and sources'])
p('C06','Objects hand out owners of themselves exactly while they are owned',
 'For a type deriving from enable_shared_from or enable_shared_from_this, whatever way the owner was created, shared_from_this, shared_from and weak_from_this/weak_from (const or not) return pointers to the asked address sharing the object\'s owner while shared pointers own the object. They return null (an ownerless weak, or one that cannot be locked) without disturbing any count when the object is not owned yet, never was, is being destroyed, or outlived its owners because the deleter left it alive. Copying, moving or assigning such objects never copies ownership, and creating an owner around a null pointer of such a type is harmless.',
 ['histories','inputs'],'every creation route, every moment of the object\'s life including constructor, destructor and after release, every copy and assignment between such objects',
 nores+' Never called from a destructor or for a null, adopted-and-released, or copied-while-destroyed object.',
 [ES,CB,WP],[('increment-if-not-zero on the remembered owner',ES),('registration of the owner in the object',CB)],
 [('remembered owner','owner an object was adopted by',ES)],['returned pointers, counts before and after'])
p('C07','A tracking control block is told about exactly the living pointers',
 'For a user-supplied control block type that overrides the notification hooks (strong init/increment/decrement/increment-if-alive/transfer and weak increment/decrement/transfer), the notifications name the pointer objects involved so that, after every operation of any history, the set of addresses reported as strong (weak) for an owner is exactly the set of living shared (weak) pointer objects holding that owner. No address is reported as added twice, or removed or transferred without having been added, and both sets are empty when the control block is destroyed.',
 ['histories','schedules'],'every sequence of operations (and failed upgrade) over pointers with a tracking control block, single threaded and concurrent',
 'Bookkeeping control blocks exist in two upstream tests that run the fixed scripts; they do not build here, and they cannot cover all histories.',
 [SP,WP,ES,CB,ST],[('source addresses passed with every count change and transfer',SP),('same for weak pointers',WP),('same for shared_from',ES)],
 [('registered pointers','addresses reported and not yet withdrawn','user control block')],['hook calls'])
p('C08','A failed creation or adoption leaks nothing and changes nothing',
 'When making, adopting or resetting to a new object throws, because an allocation fails at any point, the object\'s constructor (or copy) throws, or a user control block\'s constructor throws, the exception reaches the caller, every pointer that was the target keeps its previous value and counts, and no memory or object is leaked or destroyed twice. A unique_ptr given as source still owns its object with its deleter; a raw pointer passed for ownership is deleted exactly once by its deleter.',
 ['fault_sequences','histories'],'every allocation or constructor failure point of every creating operation, at any place in a history',
 'No test injects an allocation failure or a throwing constructor.',
 [CB,SP,UP,SPH,LPH],[('control block guarded by a unique_ptr until the object is constructed',CB),('unique_ptr holds raw pointers before the owner is allocated',SP)],[],['exceptions, live heap blocks, pointer state after the throw'])
p('C09','Memory is aligned, big enough, and returned the way it was obtained',
 'Every block an owner needs is obtained from the (rebound) allocator it was given, with room and alignment for the object whatever its size and alignment, and is returned exactly once to an equal allocator with the same pointer and element count after the object is gone; memory from the default allocator is returned with matching size, alignment and form of delete. xmem::allocator::allocate(n) returns distinct storage for n objects aligned for the type or throws bad_alloc, for every n, and works with allocator_traits and under std containers that do not compare allocators; converted allocators are interchangeable. Arrays owned by a shared pointer or unique_ptr are released with array delete and scalars with scalar delete.',
 ['inputs','configurations'],'every object size, alignment, allocator state and element count',
 'The allocator tests allocate three fixed types; they do not build here.',
 [AL,RB,CB,DD,SP],[('aligned new/delete pair',AL),('allocator stored in and rebound for the control block',CB),('array form of default_delete',DD)],[],['allocate/deallocate calls, global new/delete calls'])
p('C10','unique_ptr deletes each object exactly once, with the object\'s own deleter',
 'Through any sequence of construction, moves, converting moves, assignments, swaps, resets, releases and hand-overs to shared pointers, every object is owned by at most one unique_ptr and is deleted exactly once, by the deleter (functor, reference, function pointer, or default scalar/array delete) that accompanied it, unless it was released, in which case never. The source of a move or release is null; get, bool, *, ->, [] and get_deleter report the owned pointer and its deleter; moving from a pointer whose deleter is held by reference leaves the referenced deleter intact; a null unique_ptr never calls its deleter; swap exchanges pointers together with deleters.',
 ['histories','configurations'],'every history over unique_ptr of every deleter kind, scalar and array',
 nores+' Stateful deleters are never swapped, and conversions are tried once.',
 [UP,DD],[('move = release + deleter transfer',UP),('reset and destructor call the deleter for non-null only',UP)],[],['deleter calls with deleter identity'])
p('C11','unique_ptr stays usable while its object is being destroyed',
 'While ~unique_ptr destroys the managed object, the unique_ptr still holds that object: code run by the destructor or deleter reads the same address through get(), -> and bool and can use the not yet destroyed parts, as documented for self-referencing pimpl objects. reset, assignment from nullptr and move assignment install the new pointer before deleting the old object, so destructors that read, reset or refill the same unique_ptr see the new value and nothing is deleted twice or lost, including list-like `head = std::move(head->next)`.',
 ['histories','inputs'],'every object graph with back references and re-entrant destructor actions, for every deleter kind',
 'No test looks at a unique_ptr from the destructor of its own object.',
 [UP],[('destructor calls the deleter without clearing the pointer; reset stores before deleting',UP)],[],['pointer value seen from destructors'])
p('C12','Threads sharing an object destroy it exactly once, after every use of it',
 'When several threads each use their own atomic shared or weak pointers to common objects (copying, moving, aliasing, assigning, dropping, upgrading, handing out from the object itself, in any interleaving), every object is destroyed exactly once, only after all uses of it by every thread that owned it have happened-before the destruction, and its bookkeeping storage is freed once, after every thread\'s last access. No interleaving produces a data race, a use after destruction, a leak or a wrong final count.',
 ['schedules','histories'],'every program of a few threads and every interleaving of their atomic steps under the C++ memory model\'s happens-before',
 'Upstream stress tests have "no sensible checks"; they do not build here and meet only the interleavings and memory order the host produces.',
 [AR,CB,SP,WP],[('relaxed increment, acquire-release decrement',AR),('destruction on reaching zero, weak reference held by the strong side',CB)],
 [('strong/weak counts','atomic',AR)],['payload accesses, destructor, free; vector clocks'],)
p('C13','A concurrent weak upgrade yields a living object or null, nothing else',
 'lock() on a weak pointer (and shared_from_this on the object side) racing with releases of the last owners either returns an owner of a fully alive object, that nobody destroys while the result exists, or null. It never revives an object whose last owner is gone and, once null was returned, no later lock succeeds; it does not fail while some shared pointer owns the object throughout the call, even if the counter changes meanwhile or the hardware compare-exchange fails spuriously.',
 ['schedules'],'every interleaving of lock with copies and releases, including spurious compare-exchange failure',
 'A single sampled stress test upstream, not built here; it never forces the window between reading and raising the count.',
 [AR,WP,ES,CB],[('increment-if-not-zero loop',AR),('lock',WP)],[],['lock results versus owners held at the time'])
p('C14','The atomic pointer storage is a linearizable, leak-free cell',
 'Concurrent load, store, exchange and compare_exchange on an atomic_shared_ptr_storage behave as if executed one at a time in an order consistent with real time: load returns the last value stored, exchange returns the value it replaced, compare_exchange succeeds exactly if the current pointer compares equal to the expected one (storing the desired one and leaving expected untouched) and otherwise gives the caller the current value and stores nothing. Values travel with their owner, count and visibility of what was written before the store: no operation loses, duplicates or destroys an owner too early, and no data race arises. The same holds for the storage for std::shared_ptr.',
 ['schedules','histories'],'every small concurrent program over one or two storages and every interleaving',
 'Upstream only stresses two threads and checks sums; not built here.',
 [ST,SL,XS,SP],[('spinlock around pointer copy/swap/compare',ST),('acquire/release on the lock flag',SL),('fallback holder for std::shared_ptr',XS)],
 [('stored pointer','current value of the cell',ST)],['operation results, destruction, vector clocks'])
p('C15','Reference counters count exactly and zero is final',
 'Both ref counter types start at 1 and behave as an unsigned counter for every history: inc and dec return the new value, count the current one, and inc_nz raises a non-zero counter and returns the new value but returns 0 and leaves the counter at 0 once it is zero. For the atomic one this holds under any number of threads: no update is lost, exactly one decrement observes zero, an increment-if-non-zero never leaves zero, and return values are those of some one-at-a-time order.',
 ['histories','schedules'],'every operation sequence, count magnitude and interleaving',
 'The two tests that run here execute one sequence of seven calls on one thread with counts up to 2.',
 [AR,LR],[('fetch_add/fetch_sub/compare-exchange loop',AR),('plain counter',LR)],[('count','uint32 counter',AR)],['return values, count()'])
p('C16','Equality, ordering and printing follow the stored address',
 '==, !=, <, <=, > and >= between shared pointers and between unique pointers (of the same or related element types, different deleters or control block flavours) give exactly what the corresponding comparison of their get() addresses gives, so they are mutually consistent, total, and independent of ownership, while owner_before orders by owner and is a strict weak order whose equivalence is same_owner, also between shared and weak pointers. Streaming a pointer prints exactly what streaming its get() prints.',
 ['inputs'],'every pair and triple of pointers, including nulls, aliases and pointers into the same array or object',
 'Upstream compares two pointers into one array.',
 [SP,WP,UP,OS],[('comparison operators',SP),('comparison operators',UP),('owner_before',WP),('operator<<',OS)],[],['operator results'])
p('C17','The xstd helpers give std pointers the same added features',
 'For std::shared_ptr, std::weak_ptr and std::unique_ptr, the xstd functions make_shared_ptr, make_unique_ptr, make_aliased, same_owner and no_owner, the enable_shared_from base and atomic_shared_ptr_storage give on every history the same results as their xmem counterparts give for xmem pointers (differing only in that shared_from_this, shared_from and weak_from of an unowned object throw bad_weak_ptr instead of returning null). make_aliased of an ownerless pointer is null; same_owner and no_owner decide by ownership and not by address, for empty, expired and aliased pointers alike.',
 ['histories','inputs'],'every history of std pointers using the helpers',
 'Upstream runs the same fixed scripts on std pointers; not built here.',
 [XS,SL],[('helpers built on owner_before and aliasing',XS),('spinlock holder used before C++20',XS)],[],['helper results'])
p('C18','make functions construct exactly the object asked for, once',
 'make_shared, make_local_shared and make_unique forward their arguments unchanged (value category, constness, count) to exactly one construction of the object, value-initialising when there are none, also for array elements of make_unique; the for_overwrite variants default-initialise (running constructors of class types) the requested number of elements. make_shared_ptr, make_local_shared_ptr and make_unique_ptr copy an lvalue exactly once leaving it unchanged, and move an rvalue exactly once without copying; the result holds the value and is its only owner.',
 ['inputs','configurations'],'every value, argument list, value category and element type (also const, over-aligned, move-only, non-default-constructible) on memory with arbitrary previous content',
 'A few literal argument lists are tried upstream, on fresh zeroed memory.',
 [SPH,LPH,UP,CB,XS],[('perfect forwarding to placement new',CB),('make functions',SPH),('make functions',UP)],[],['construction log, resulting values'])
p('C19','Sharing, observing and releasing never allocate and never throw',
 'Copying, moving, converting, aliasing, casting, comparing, assigning, swapping, resetting to null and destroying shared and weak pointers, locking, handing out pointers from an object, and load/store/exchange/compare_exchange on an atomic storage succeed with the usual results even when no memory at all can be allocated, and never throw. Only making or adopting a new object may allocate or throw.',
 ['fault_sequences','histories'],'every history in which allocation is refused outside creating operations',
 'No test runs with allocation failing.',
 [SP,WP,ES,ST,CB],[('noexcept operations on preallocated control blocks',SP)],[],['allocations during operations, exceptions'])
p('C20','Programs written for the std pointers give the same results with xmem',
 'On the interface that both libraries share, and outside the documented differences, replacing std::shared_ptr, std::weak_ptr, std::enable_shared_from_this, std::unique_ptr and the make and cast functions by xmem\'s (atomic or local) gives, for every program, the same pointer values, counts, comparison results, deleter calls and order of object constructions and destructions.',
 ['programs','histories'],'every generated program over the shared interface, executed with both libraries',
 'Upstream runs the same fixed scripts against std as a sanity check; they do not build here.',
 [SP,WP,UP,ES,CB,LPH,SPH],[('all pointer operations',SP)],[],['observation log of both executions'])
p('C21','A storage never runs destructors while it is locked',
 'Objects released by store, exchange or compare_exchange on an atomic_shared_ptr_storage (xmem or xstd), including the previous value of the caller\'s expected pointer, may use the same storage from their destructors: every such operation completes, sees the cell already updated, and gives the normal result. No schedule makes threads block each other for ever.',
 ['histories','schedules'],'every destructor action on the storage, from every operation and interleaving',
 'No test touches a storage from a destructor.',
 [ST,XS,SL],[('displaced pointers are released after the lock',ST)],[],['completion, values seen from destructors'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P),'properties')
