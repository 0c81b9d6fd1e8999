#!/usr/bin/env python3
"""Regenerates properties.jsonl (one JSON object per line)."""
import json, os
H = "code/xmem/"
SP, WP, CCB, CPP = H+"basic_shared_ptr.hpp", H+"basic_weak_ptr.hpp", H+"common_control_block.hpp", H+"cb_ptr_pair.hpp"
SF, UP, ST, SL = H+"basic_shared_from.hpp", H+"unique_ptr.hpp", H+"basic_atomic_shared_ptr_storage.hpp", H+"bits/spinlock.hpp"
ARC, LRC, AL, STD = H+"atomic_ref_count.hpp", H+"local_ref_count.hpp", H+"allocator.hpp", H+"std_helpers.hpp"
SHP, LSP = H+"shared_ptr.hpp", H+"local_shared_ptr.hpp"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

NOTEST = "Only the two ref-count unit tests run here, and they never create a pointer; the project's own pointer tests walk a few fixed histories. "

prop("C01", "A shared object is destroyed exactly once, when its last owner goes",
 "For every history of operations on shared pointers (created, copied, moved, converted, aliased, assigned, swapped, reset or destroyed in any way), a managed object stays alive while at least one shared pointer owns it, and is destroyed exactly once, by the deletion it was created with, during the operation that removes its last owner. Weak pointers, non-owning aliases and operations on other pointers neither destroy it nor keep it alive.",
 ["histories", "inputs"], "all histories of shared-pointer operations over several pointers, objects and pointer types, for atomic, local and custom control blocks",
 NOTEST + "The claim is about all histories.",
 [SP, CCB, CPP], [("strong reference bookkeeping of every special member", SP), ("dec_strong_ref destroys the resource at zero", CCB)],
 [("m_strong", "number of owning shared pointers", CCB)], ["object destructors and deleter calls", "use_count()"])
prop("C02", "Reported ownership is exact",
 "After every operation, use_count() of any shared or weak pointer equals the number of shared pointers that currently share that ownership (0 if there are none). owner(), t_owner(), same_owner(), no_owner() and owner_before() identify exactly the pointers that share ownership, whatever addresses those pointers store.",
 ["histories"], "all histories over shared and weak pointers, including aliases, pointers to null that own, and non-null pointers that own nothing, and very many owners",
 NOTEST + "A wrong count shows only after particular sequences, such as assignment between pointers that already share an owner.",
 [SP, WP, CCB], [("inc/dec/transfer of references", SP), ("owner comparison on the control block", WP)],
 [("m.cb", "owner identity", CPP), ("m_strong", "owner count", CCB)], ["use_count, owner, t_owner, same_owner, no_owner, owner_before"])
prop("C03", "Shared pointers have value semantics: copy, move, swap, assign, reset",
 "Copying or converting leaves the source unchanged and makes an equal pointer, moving makes the destination take the source's value and leaves the source empty, swap exchanges the two values, reset and assigning nullptr empty the pointer, and self-assignment, self-move and self-swap change nothing. After every operation get(), the boolean test, dereferencing, indexing, the comparison operators and stream output reflect exactly the stored address, adjusted for the static type of the pointer.",
 ["histories", "inputs"], "all histories over pointers of different static types (derived, offset base, const, void, member), with and without owner",
 NOTEST + "Each operation has same-type and converting variants, and outcomes depend on whether the two sides share an owner, store the same address or are the same pointer.",
 [SP, CPP, H+"ostream.hpp"], [("special members and converting members", SP), ("pair copy/move/swap", CPP)],
 [("m.ptr", "stored address", CPP)], ["get(), bool, *, ->, [], ==, <, ostream <<"])
prop("C04", "Weak pointers observe without owning, and lock() tells the truth",
 "A weak pointer (copied, moved, converted, aliased, assigned, swapped or reset in any way) refers to the same ownership as its source and never changes how long the object lives. expired() is true exactly when no shared pointer owns the object any more; lock() yields a pointer that shares ownership and stores the weak pointer's address when the object is alive, and an empty pointer otherwise, forever after.",
 ["histories"], "all histories mixing weak and shared pointers, before and after expiry",
 NOTEST + "Errors in weak bookkeeping surface only in longer histories, after the object or the other weak pointers are gone.",
 [WP, CCB], [("lock through increment-if-not-zero", WP), ("weak reference bookkeeping", WP)],
 [("m_weak", "weak pointers plus one for all owners", CCB)], ["lock, expired, use_count, owner, bool"])
prop("C05", "Control-block storage is freed exactly once, at the right time and place",
 "The storage obtained for a shared object and its bookkeeping is returned exactly once, to an allocator equal to the one that supplied it, with the same type and size, during the operation that removes the last shared or weak pointer referring to it; never earlier and never later. Storage handed out is suitably aligned and large enough (also when the default allocator is used directly, for any number of objects), and the library never touches a destroyed object or storage already returned.",
 ["histories", "inputs"], "all histories of shared and weak operations, for default and custom (stateful) allocators, in-place and adopted objects, over-aligned types",
 NOTEST + "Leaks, double frees and use after free depend on the order in which the last strong and weak pointers go.",
 [CCB, AL, H+"allocator_rebind.hpp", SP, WP], [("dec_weak_ref destroys the block at zero", CCB), ("destroy_self returns memory to the rebound allocator", CCB)],
 [("m_weak", "keeps the block alive", CCB)], ["allocate/deallocate calls of custom allocators, operator new/delete"])
prop("C06", "Threads sharing an object: destroyed once, after the last release, no leak",
 "When threads concurrently copy, assign, convert, lock, query and drop their own shared and weak pointers to common objects (atomic variant), then in every interleaving each object is destroyed exactly once, after the last owner has let go and by the thread whose release was last, and its storage is freed exactly once after the last weak pointer too. Counts observed meanwhile are values the count really had.",
 ["schedules"], "all interleavings, at the granularity of atomic operations, of small multi-threaded programs over shared and weak pointers",
 "The project's threaded tests say themselves they make no sensible checks, and they do not run here; a test runs a handful of schedules.",
 [SP, WP, CCB, ARC], [("atomic counters, destroyer is the thread that reached zero", CCB), ("atomic_ref_count", ARC)],
 [("m_strong, m_weak", "atomic counters", CCB)], ["API calls and returns, destructor and free events per thread"])
prop("C07", "lock() against the last release is all or nothing",
 "In every interleaving of lock() (or obtaining a shared pointer from a raw object through its shared-from base) with other threads releasing owners, the call either returns an owner, after which the object is alive until that owner is released, or returns empty and the object is being or has been destroyed. Once some lock() has come back empty no later one succeeds, and an object is never revived.",
 ["schedules"], "all interleavings of programs whose threads hold weak pointers while others release the last owners",
 "The race window is a few instructions; the threaded tests hit it by chance and check nothing.",
 [ARC, CCB, WP, SF], [("inc_nz compare-exchange loop", ARC), ("lock", WP)],
 [("m_strong", "stays at zero once zero", ARC)], ["results of lock/expired/shared_from, destructor events"])
prop("C08", "Destruction and freeing happen after every use (memory ordering)",
 "Under the C++ memory model, everything a thread did with an object before giving up its owner happens before the object's destruction, and every access to the shared bookkeeping happens before its storage is freed, whichever thread does it. Likewise whatever a thread wrote to an object before putting it in an atomic storage happens before any access through a pointer taken out of that storage.",
 ["schedules"], "all synchronisation choices (memory orders) the code makes, judged by happens-before on recorded executions of small multi-threaded programs",
 "On x86 a too-weak memory order changes nothing observable, so no test on this hardware can fail.",
 [ARC, SL, ST, CCB], [("acquire-release decrement", ARC), ("acquire/release spinlock", SL)],
 [("memory orders", "release/acquire edges", ARC)], ["every atomic operation with its order, every plain access to object or block"])
prop("C09", "atomic_shared_ptr_storage is linearizable",
 "Every concurrent history of load, store, exchange and compare_exchange on an atomic shared-pointer storage is equivalent to some order of the same calls, one at a time and respecting real time: load returns the latest value, exchange returns the value it replaced, compare_exchange replaces the value exactly when it equals the expected pointer and otherwise reports the current value in the expected pointer. Values keep their owners throughout: nothing stored is lost, destroyed early, duplicated or leaked.",
 ["schedules", "histories"], "all interleavings of small programs of storage operations by several threads, including values with equal addresses, empty values and non-owning values",
 "The tests count successes and check no order; only complete enumeration of schedules settles linearizability.",
 [ST, SL], [("spinlock around each access", ST), ("swap under lock, release outside", ST)],
 [("m_ptr", "current value", ST)], ["call/return and results of each operation, destructor events"])
prop("C10", "Storage operations always finish and run no user code under the lock",
 "Every operation on an atomic shared-pointer storage finishes in every schedule in which the other threads keep running. In particular the storage never destroys a user's object or runs a user's deleter while it holds its internal lock, so a destructor that itself uses the same storage completes.",
 ["schedules", "histories"], "all interleavings of storage operations, with values whose destruction re-enters the storage, dropped through each operation",
 "A destructor that re-enters is never tested, and a missing unlock on one path shows only when that path is taken.",
 [ST, SL, STD], [("old value is released after unlocking", ST), ("lock guard", SL)],
 [("m_spinlock", "internal lock", ST)], ["operation completion, destructor events inside operations"])
prop("C11", "shared_from joins the object's ownership, or yields nothing",
 "While an object that derives from a shared-from base is owned by shared pointers, every shared_from/shared_from_this/weak_from/weak_from_this call yields a pointer that joins that same ownership and stores the requested address; when it is not owned (never was, or its destruction has begun) the shared variants yield empty and nothing about the existing pointers changes. Copying or assigning such objects never transfers or disturbs ownership.",
 ["histories"], "all histories of creating (every way, including from null), copying, assigning, dropping and querying objects with a shared-from base, including calls from the constructor and destructor",
 NOTEST + "Calls during destruction and on adopted objects are not covered by any test.",
 [SF, CCB], [("increment-if-not-zero before handing out a pointer", SF), ("link set when ownership is created", CCB)],
 [("m", "link from object to its owner", SF)], ["pointers returned, use_count, expired"])
prop("C12", "unique_ptr deletes exactly once, with the deleter that belongs to the pointer",
 "For every history of unique-pointer operations and every kind of deleter (default, stateful, by reference, function, array), each object taken over is deleted exactly once, unless released, by the deleter it is held with; the deleter goes with the pointer through move construction, move assignment, conversion and swap. Null is never deleted, at most one unique pointer holds an object, and while a unique pointer's own destructor deletes the object that pointer still refers to it. get(), the boolean test, dereferencing, indexing, comparisons, stream output and get_deleter() always tell what is held.",
 ["histories", "inputs"], "all histories over several unique pointers, objects and deleters, for each deleter kind and for arrays",
 NOTEST + "The four specialisations repeat the logic, and tests never look at which deleter ran after a swap or an assignment.",
 [UP, H+"default_delete.hpp"], [("release/reset/move/swap in each specialisation", UP)],
 [("m_ptr, deleter", "held object and its deleter", UP)], ["deleter calls with deleter identity, get(), destructor"])
prop("C13", "A tracking control block always knows exactly its live pointers",
 "A custom control block that records strong and weak pointers through the notification members (init, increment, decrement, transfer) knows after every operation exactly the addresses of the shared and weak pointers that currently refer to it. No pointer is registered twice, unregistered when unknown, or left registered after it is gone, moved from, swapped or reassigned.",
 ["histories"], "all histories of shared, weak and shared-from operations with a tracking control block, single-threaded, and concurrent ones at their end",
 "The bookkeeping tests need packages missing here and cover only fixed histories; const shared_from, aliasing and same-owner swaps are left out.",
 [SP, WP, SF, CCB], [("src/dest arguments of inc/dec/transfer", SP), ("swap notifies only when owners differ", SP)],
 [("registered addresses", "kept by the custom control block", CCB)], ["notification calls with addresses"])
prop("C14", "A failing operation changes nothing and leaks nothing",
 "When memory for the control block cannot be obtained or the object's constructor throws, the operation throws and every existing pointer, count and object is as before: an assigned-to pointer keeps its value and a moved-from unique pointer keeps its object. A raw pointer passed in is deleted exactly once, and no storage leaks.",
 ["fault_sequences", "histories"], "every failing allocation or constructor, in every creating, assigning or resetting operation, in every state of the pointers",
 "No test injects an allocation failure or a throwing constructor.",
 [SP, CCB], [("control block is created before the pointer changes", SP), ("block held by a unique pointer until complete", CCB)],
 [("tmp", "partially built block", CCB)], ["exceptions, all pointers afterwards, deletions, storage"])
prop("C15", "A pointer has its new value before its old object is destroyed",
 "Assignment and reset of a shared pointer take effect before the object it owned is released. So the source may live inside the object being released (head = head->next, by copy or move, or adopting a unique pointer stored inside), and code in the dying object's destructor may read, assign or reset that same pointer, all with the same outcome as if the old value had been moved to a temporary and dropped last.",
 ["histories", "inputs"], "all histories over linked objects whose members are shared and weak pointers and whose destructors act on the pointers involved",
 NOTEST + "They never assign from inside the released object or re-enter.",
 [SP, WP], [("assign by constructing and swapping", SP)],
 [("m", "value seen by re-entrant code", SP)], ["values of all pointers, destruction order"])
prop("C16", "Reference counts are exact counters that never leave zero",
 "Under any interleaving, each increment, decrement, conditional increment and read of the atomic reference count returns what some sequential order of these operations, consistent with real time, would return; the local count behaves the same in one thread. A conditional increment returns 0 exactly when the count is 0 and then changes nothing, for counts of any size.",
 ["schedules", "histories"], "all interleavings of small programs over one counter, and all short histories including large counts",
 "The existing test runs one sequence of ten calls in one thread.",
 [ARC, LRC], [("compare-exchange loop in conditional increment", ARC), ("fetch_add/fetch_sub", ARC)],
 [("m_refs", "the count", ARC)], ["return values"])
prop("C17", "The helpers for std pointers give the same guarantees",
 "The counterparts for std pointers behave like the originals: the storage for std::shared_ptr is linearizable, finishes always and runs no user code under its lock; make_aliased, same_owner and no_owner, make_shared_ptr and make_unique_ptr, and the shared-from base join, compare, report and create ownership exactly as their xmem counterparts do while the object is owned.",
 ["schedules", "histories"], "the histories and interleavings of C02, C09, C10 and C11 restricted to what the std helpers offer, as C++17 and C++20",
 "The sanity tests for std pointers do not run here and check few fixed histories.",
 [STD, SL], [("spinlock holder for C++17", STD), ("owner comparison by owner_before", STD)],
 [("m_ptr", "current value of the storage", STD)], ["results of each helper"])
prop("C18", "Aliases and casts share ownership and store the requested address",
 "Aliasing construction, make_aliased and static, const, reinterpret and dynamic pointer casts of an owning pointer give a pointer that shares ownership with the source and stores exactly the requested or cast address, leaving the source as it was. A failed dynamic cast, a cast of a null pointer that owns nothing, and make_aliased from a pointer that owns nothing give an empty pointer that owns nothing.",
 ["histories", "inputs"], "all sources (owning, null, owning null, non-owning) in all histories, all cast kinds over a class lattice with offset bases",
 NOTEST + "Casting is tested on a few pointers, never for what happens to ownership afterwards.",
 [SP, WP], [("make_aliased and the cast functions", SP), ("aliasing constructors", SP)],
 [("m", "owner and address", CPP)], ["get(), owner(), use_count of result and source"])
prop("C19", "Creation functions construct exactly the object asked for",
 "Each creation function (make_shared, make_unique, their local, array, for_overwrite and from-value variants, and the ones with an allocator) constructs exactly one object (or the requested number of elements) from exactly the given arguments with their value categories: an lvalue argument is copied and stays as it was, an rvalue is moved from, arrays are value-initialised. The pointer returned is its only owner and stores its address.",
 ["inputs", "histories"], "all creation functions with lvalue, const lvalue and rvalue arguments, in any state of the other pointers",
 NOTEST + "They look at the constructed value in a few cases only.",
 [SHP, LSP, UP, CCB, H+"default_delete.hpp"], [("perfect forwarding", SHP), ("make_resource_cb", CCB)],
 [("content", "value constructed", CCB)], ["constructor kinds and counts, content, use_count"])
prop("C20", "Only creation obtains memory or can fail",
 "Creating a shared object obtains memory exactly once (make_shared and its variants: one block for object and bookkeeping; adopting a raw or unique pointer: one block for the bookkeeping). No other operation obtains memory or can fail, in any state: copying, converting, moving, assigning, swapping, resetting, locking, casting, aliasing, observing and destroying shared, weak and unique pointers, and obtaining a pointer through a shared-from base. Constructing, assigning and swapping shared and weak pointers from pointers, moving unique pointers, resetting to empty, locking and observing are declared noexcept.",
 ["histories", "inputs"], "all histories of pointer operations, over all states and pointer types, and all creation functions",
 NOTEST + "That an operation never allocates cannot be seen from its results.",
 [SP, WP, CCB, UP, SF], [("one allocation per control block", CCB), ("reference counting without allocation", SP)],
 [("control block", "the only storage obtained", CCB)], ["allocations by the allocator or operator new during each call", "noexcept"])
prop("C21", "A deleter lives, is used and goes exactly with the object it was given for",
 "A deleter given with an adopted object (a raw pointer or a unique pointer holding the deleter by value) is moved into the control block and keeps its state. Exactly that deleter is called, once, with the object, when the last owner goes (never for a null pointer), and it is destroyed right afterwards, exactly once, even while weak pointers remain, releasing whatever it holds, such as a shared pointer that keeps another object alive. If adoption fails it deletes the object and is destroyed.",
 ["histories", "fault_sequences"], "all histories of shared and weak pointers over objects, null pointers and failed adoptions whose deleters hold shared pointers to one another",
 NOTEST + "They use deleters without state, or with a counter only.",
 [CCB, SP, UP], [("unique pointer with the deleter inside the control block", CCB), ("adoption", SP)],
 [("m_obj", "unique pointer and its deleter", CCB)], ["calls and destructions of deleter objects, use_count of what they hold"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
