#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=hook)))

UM, UC, SM, SC = 'dumpster/src/unsync/mod.rs', 'dumpster/src/unsync/collect.rs', 'dumpster/src/sync/mod.rs', 'dumpster/src/sync/collect.rs'
LIB, IMP, PTR, DER = 'dumpster/src/lib.rs', 'dumpster/src/impls.rs', 'dumpster/src/ptr.rs', 'dumpster_derive/src/lib.rs'
MAPHOOK = 'HashMap/HashSet imports, so that map iteration order is an enumerated choice'
ATOMHOOK = 'atomics imports (and parking_lot, replaced by a Cargo patch), so that every shared-memory step is a scheduling point'

p('C01', 'A reachable thread-local value is never reclaimed',
  'As long as the program can reach a value through a chain of live thread-local (unsync) Gc pointers starting at one it holds, that value is not dropped, its memory is neither freed nor reused, and dereferencing yields exactly what was stored; nor does the collector ever touch a value after destroying it. This holds after every sequence of creating, cloning, moving, storing, clearing and dropping pointers and of explicit or automatic collections, whatever the shape of the pointer graph and whatever order the collector examines it in.',
  ['histories', 'inputs'], 'all operation histories on one thread, all pointer graphs, all orders in which the collector may visit its candidates',
  'the unit tests build about ten fixed graphs and one order of drops; map iteration order is random per run, so a wrong order-dependent decision is hit by luck only',
  [UC, UM, LIB],
  [('root detection: reference count minus references found while tracing', UC + ': Dumpster::collect_all, Dfs'), ('marking from roots', UC + ': Mark'), ('reference counting on clone/drop', UM + ': Clone/Drop for Gc')],
  ['destructor calls of stored values', 'deallocation of the backing box', 'value seen through Deref'], MAPHOOK,
  [('ref_count', 'number of Gcs to an allocation', UM + ': GcBox'), ('to_collect', 'allocations that may be garbage', UC + ': Dumpster')])

p('C02', 'Unreachable thread-local values are reclaimed completely and exactly once',
  'Dropping the last Gc to a thread-local value destroys it at once, and when collect() (or an automatically triggered collection) returns, every thread-local value the program can no longer reach, including any cyclic structure, has been destroyed. Each destroyed value has its destructor run exactly once and its memory returned exactly once, with the size and alignment it was allocated with; nothing stays allocated forever.',
  ['histories', 'inputs'], 'all operation histories on one thread, all pointer graphs with self-loops, parallel edges, several components and shared tails, all candidate visiting orders',
  'the tests check a handful of cycles; completeness needs every graph, every order of drops and every point at which a collection may be interposed',
  [UC, UM, LIB],
  [('dirty marking on non-final drop', UM + ': Drop for Gc, ' + LIB + ': contains_gcs'), ('destruction of unmarked candidates and what they reach', UC + ': DropAlloc, drop_assist'), ('immediate free on the last drop', UM + ': Drop for Gc')],
  ['destructor calls', 'allocator calls (address, size, alignment)'], MAPHOOK)

p('C03', 'A reachable shared value is never reclaimed, under any thread schedule',
  'As long as any thread can reach a value through live shared (sync) Gc pointers, no interleaving of other threads creating, cloning, dereferencing, moving, dropping or collecting causes that value to be dropped or its memory to be freed, and no thread (including one running a collection) ever touches memory that has been freed. The accesses a thread made to a value happen-before the destruction of that value under the Rust memory model.',
  ['schedules', 'histories'], 'all schedules (and stale reads the memory model permits) of two or three threads doing a few pointer operations each on overlapping graphs, and all single-thread histories',
  'the concurrent collector is only tested single-threaded (two tests simulate one hand-written interleaving from inside accept); no test runs two threads against a collection',
  [SC, SM],
  [('strong-count snapshots against references found', SC + ': dfs, Dfs::visit_sync'), ('mutation detection by generation and pointer tags', SM + ': Deref/Clone/Drop for Gc, CURRENT_TAG'), ('weak count pins allocations that buffers or in-flight drops still use', SC + ': mark_dirty, mark_clean; ' + SM + ': Drop')],
  ['destructor calls', 'deallocation', 'every atomic access of the crate', 'values read by threads'], ATOMHOOK + '; ' + MAPHOOK,
  [('strong/weak/generation', 'per-allocation counts and last-access sweep number', SM + ': GcBox'), ('tag', 'sweep that last saw or used this pointer', SM + ': Gc')])

p('C04', 'Unreachable shared values are reclaimed exactly once, under any thread schedule',
  'No interleaving of clones, dereferences, moves, drops and collections leaks a shared (sync) value or destroys it twice: once all threads that dropped pointers have exited or called collect(), calling collect() again reclaims every shared value that is unreachable, cyclic or not. Each one has its destructor run exactly once and its memory returned exactly once with the layout it was allocated with; on a single thread one collect() suffices.',
  ['schedules', 'histories'], 'all schedules of two or three threads dropping, cloning, moving and collecting overlapping graphs, followed by quiescence, and all single-thread histories',
  'leaks through races between two drops, or between a drop and a collection, need one particular interleaving of a dozen atomic steps; the tests are single-threaded',
  [SC, SM],
  [('strong/weak count protocol on drop', SM + ': Drop for Gc'), ('delivery of thread buffers to the global truck', SC + ': Dumpster::deliver_to'), ('weak_destroys: collector frees what was released under it', SC + ': GarbageTruck::collect_all')],
  ['destructor calls', 'allocator calls', 'state after quiescence'], ATOMHOOK + '; ' + MAPHOOK)

p('C05', 'Operations on shared pointers always complete, under any thread schedule',
  'Any interleaving of creating, cloning, dereferencing, moving, dropping and collecting shared (sync) Gc pointers runs to completion: no operation deadlocks, panics or aborts, whether collections are called explicitly, are triggered inside a drop by the collect condition, or run concurrently on several threads, and whether or not the values involved are locked by another thread at the time.',
  ['schedules', 'configurations'], 'all schedules of two or three threads with collect conditions never, default and always',
  'a deadlock needs a collection on one thread to end up freeing an object whose last pointer another thread dropped during it; no test has two threads and a triggering condition',
  [SC, SM, IMP],
  [('collecting_lock serialises collections', SC + ': collect_all, collect_all_await'), ('per-thread cleaning flag', SC + ': CLEANING'), ('try_lock when tracing', IMP + ': Mutex, RwLock')],
  ['completion of every thread', 'panics'], ATOMHOOK)

p('C06', 'Pointers seen by destructors are either fully usable or safely dead',
  'While a collection destroys a value, its destructor may inspect the Gc pointers the value owns: a pointer to another value being destroyed is dead (try_deref and try_clone give None, dereferencing or cloning panics instead of touching freed memory) and stays dead if it is moved out, while a pointer to a value that is still alive can be dereferenced, cloned, moved out or dropped like any other. Whatever destructors do with such pointers, even storing dead ones in live values, no live value is freed early or leaked, no freed memory is accessed and later collections work; this holds for both the thread-local and the shared collector.',
  ['histories', 'programs'], 'all small graphs with every assignment of destructor behaviours (inspect, clone, keep, move out, drop) to the nodes, for both collectors',
  'the tests cover one self-cycle whose destructor moves its own dead pointer out; combinations with live targets and with several dying nodes are not tested',
  [UC, UM, SC, SM, PTR],
  [('dead marking before destruction', UC + ': DropAlloc; ' + SC + ': PrepareForDestruction'), ('null checks', UM + ' and ' + SM + ': try_deref, try_clone, Deref, Clone, Drop'), ('Nullable', PTR)],
  ['results of try_deref/try_clone/Deref/Clone in destructors', 'later destructor and allocator calls'], MAPHOOK)

p('C07', 'The collector statistics equal the true numbers of pointers',
  'The number of existing Gc pointers reported to a collect condition equals the number of Gc pointers of that collector that really exist (held by the program or stored in values that have not been destroyed), on the calling thread for the thread-local collector and in the whole program for the shared one. The number dropped since the last collection restarts when a collection begins and from then on counts every Gc the program drops, directly or along with its owner.',
  ['histories', 'schedules'], 'all operation histories, including collections that destroy cyclic garbage, and concurrent clones and drops on several threads',
  'no test looks at the counters; drift only shows after collections of cyclic garbage or concurrent updates, and its effect (rarer and rarer collections) needs long runs',
  [UC, UM, SC, SM],
  [('creation/drop notification', UC + ' and ' + SC + ': notify_created_gc, notify_dropped_gc'), ('reset at collection', UC + ' and ' + SC + ': collect_all')],
  ['CollectInfo passed to the collect condition'], None)

p('C08', 'Automatic collection runs exactly when the collect condition asks for it',
  'The collect condition in force is consulted on every drop of a Gc outside a running collection; when it answers true a collection runs before the drop returns, and when it answers false no cyclic garbage is destroyed by that drop. A condition set for the thread-local collector affects only the setting thread, one set for the shared collector affects all threads, and under the default condition a drop that leaves more drops since the last collection than there are existing Gcs runs a collection before it returns; a thread hands its candidate garbage to the shared collector at the latest after 100001 further drops.',
  ['histories', 'configurations'], 'all operation histories and all answer sequences of a scripted condition, default/never/always conditions, two threads with different conditions',
  'one test runs 200000 drops under the default condition; no test uses scripted conditions, checks the per-thread/global scope or the bound',
  [UC, UM, SC, SM],
  [('condition call in notify_dropped_gc', UC + ' and ' + SC), ('set_collect_condition', UM + ' and ' + SC), ('default_collect_condition', UM + ' and ' + SM), ('is_full threshold', SC + ': Dumpster::is_full')],
  ['calls of the condition', 'destructor calls during drops', 'CollectInfo'], None)

p('C09', 'Every Gc stored in a standard container is traced exactly once',
  'For every standard-library type the crate implements Collectable for, and every nesting of them, accept visits each Gc pointer stored in the value exactly once and nothing else, and reports an error if and only if some part of the value is currently inaccessible (locked, or mutably borrowed). Consequently a cycle running through any such container is collected by either collector, and a value reachable only through one is kept.',
  ['inputs', 'programs'], 'all implemented container types, their compositions to depth two, all small contents and every position of an inaccessible part',
  'tests exercise RefCell<Vec<_>>, Mutex<Vec<_>> and Option; a wrong branch of one container or tuple arity passes all of them',
  [IMP, LIB],
  [('Collectable implementations', IMP), ('contains_gcs', LIB)],
  ['calls of a Visitor', 'return value of accept', 'reclamation of cycles through the container'], None)

p('C10', 'Derived Collectable traces every field of every variant exactly once',
  'For every struct or enum that #[derive(Collectable)] is put on, whatever its shape (unit, tuple or named fields, any number of variants, generic parameters, field and variant names), the derived accept visits every Gc in the fields of the active variant exactly once and no others, stops with an error as soon as a field is inaccessible, and compiles whenever all field types are Collectable.',
  ['programs', 'inputs'], 'all type shapes up to a bound on variants, fields and generics, all variants, every position of an inaccessible field',
  'the tests derive six types; the macro emits different code for each combination of field style, field index and variant',
  [DER],
  [('code generation for structs and enums', DER + ': delegate_methods'), ('generic bounds', DER + ': add_trait_bounds')],
  ['calls of a Visitor on values of derived types', 'compilation of derived types'], None)

p('C11', 'Borrowed, locked or poisoned contents never break a collection',
  'While a value owned by a Gc is mutably borrowed, locked, write-locked or poisoned, dropping pointers and running collections (on the same or another thread) completes without panic or deadlock and reclaims nothing that is reachable, including what is only reachable through the inaccessible part. After the borrow or lock ends, everything unreachable is reclaimed by the following collections.',
  ['histories', 'schedules'], 'all graphs with every subset of contents inaccessible, all operation histories while a guard is held, both collectors, every supported lock type',
  'three tests hold one guard on one object; combinations with other garbage that points at the guarded value or is pointed at by it are not tested',
  [IMP, UC, SC],
  [('try_borrow/try_lock/try_read in accept', IMP), ('errors from accept make the value a root', SC + ': dfs'), ('contents that cannot be traced leave references unaccounted', UC + ': Dfs')],
  ['completion and panics', 'destructor calls'], None)

p('C12', 'Gc pointers keep the identity and equality semantics of Rc and Arc',
  'All clones of a Gc refer to one value at one unchanging address: ptr_eq and as_ptr equality hold exactly between pointers to the same allocation, a write through one clone is seen through all, as_ref, borrow and Deref agree, and == compares the stored values. This stays true across any history of moves, stores and collections, for both collectors.',
  ['histories', 'inputs'], 'all operation histories, comparing every pair of pointers that exist after each step',
  'the tests compare pointers only right after creation, not after collections or after moves through the heap',
  [UM, SM, PTR],
  [('ptr_eq, as_ptr, PartialEq, Deref, Clone', UM + ' and ' + SM), ('Nullable', PTR)],
  ['results of ptr_eq, as_ptr, ==, Deref, {:p}'], None)

p('C13', 'Thread exit reclaims or hands over all garbage and never aborts',
  'When a thread ends, all of its thread-local values that are then unreachable have been destroyed exactly once, including values whose last pointer was stored in a thread-local variable of the program that is torn down before or after the collector; its candidate garbage of the shared collector is handed over so that a later collect() on any other thread reclaims it. Using or dropping Gc pointers during thread teardown never panics or aborts the process.',
  ['histories', 'configurations'], 'all operation histories on a thread that then exits, with remaining pointers held by locals, by thread-locals initialised before the first Gc or after it',
  'no test ends a thread that owns garbage, and none stores a Gc in a thread-local that outlives the collector state',
  [UC, UM, SC, SM],
  [('Drop for Dumpster', UC + ' and ' + SC), ('thread_local DUMPSTER access', UM + ' and ' + SC)],
  ['destructor calls after join', 'process exit status'], None)

p('C14', 'Shared collect() returns only after the caller\'s own garbage is gone',
  'When a thread calls the shared collector\'s collect(), every value that is unreachable by then because of what that thread dropped has been destroyed when the call returns, provided no other thread ever had access to it or to anything connected with it. This holds even if other threads run or trigger collections at the same time, including one that has already taken the caller\'s candidates but not finished with them.',
  ['schedules'], 'all schedules of one thread that creates garbage and collects against other threads that collect, drop and exit',
  'tests call collect() with no other thread running, so waiting for a concurrent collection is never exercised',
  [SC],
  [('delivery before collecting', SC + ': collect_all_await'), ('collecting_lock held for the whole collection', SC + ': collect_all')],
  ['destructor calls before collect() returns'], ATOMHOOK)

p('C15', 'Unsized values are managed exactly like sized ones',
  'With the coerce-unsized feature, a Gc coerced to a slice or trait-object type keeps pointing at the same value with the right length or vtable, shares ownership with pointers of the original type, and is traced, collected, marked dead and freed under the same rules as a sized Gc, with the original layout. This holds for both collectors and all histories mixing sized and unsized pointers.',
  ['histories', 'inputs'], 'all operation histories over slices of length 0 to 2 and trait objects in cyclic graphs, both collectors',
  'two tests coerce one array and look at its length; no unsized value is ever collected, part of a cycle or dead',
  [PTR, UM, SM],
  [('Erased round trip of fat pointers', PTR + ': Erased'), ('Nullable::as_null keeps metadata', PTR), ('CoerceUnsized impls', UM + ' and ' + SM)],
  ['destructor calls', 'allocator calls', 'length and dispatch through the pointer'], MAPHOOK)

p('C16', 'Thread-local and shared collectors can be mixed',
  'Values managed by the thread-local collector may own shared Gc pointers: each collector keeps its guarantees on its own graph, a shared value stays alive while a reachable thread-local value owns a pointer to it, and it becomes reclaimable exactly when the owning thread-local value is destroyed, whether by reference count or as part of a collected cycle. Running one collector never destroys values of the other collector that are still reachable and never panics.',
  ['histories', 'programs'], 'all small mixed graphs with cycles on both sides, all orders of drops and of the two collect functions',
  'no test stores one kind of pointer in a value owned by the other',
  [UC, UM, SC, SM, LIB],
  [('visitors ignore pointers of the other collector', UC + ': Dfs, Mark, DropAlloc'), ('contains_gcs sees both kinds', LIB)],
  ['destructor calls', 'panics'], MAPHOOK)

p('C17', 'Destructors may use the collector freely',
  'A destructor that runs during a collection may create, clone and drop Gc pointers, clear program-held pointers, trigger or call collect, or panic, with either collector: no operation deadlocks or aborts, values and garbage produced there are reclaimed like any others by the end of the following collections, and a panic in a destructor (the memory of the values being destroyed at that moment aside) propagates to the caller, still lets all other garbage be reclaimed and leaves the collector working.',
  ['programs', 'histories', 'fault_sequences'], 'all small graphs with every assignment of destructor behaviours (allocate, drop held pointers, collect, set off the condition, panic) to nodes, both collectors',
  'destructors in the tests only count; re-entering the collector from a destructor is not exercised',
  [UC, UM, SC, SM],
  [('COLLECTING / CLEANING flags', UC + ' and ' + SC), ('candidate set not borrowed while destructors run', UC + ': collect_all'), ('collecting_lock not re-acquired by its holder', SC)],
  ['completion, panics', 'destructor and allocator calls'], MAPHOOK)

p('C18', 'Collect conditions may use the collector themselves',
  'A collect condition is ordinary code: while it is consulted it may create, clone and drop Gc pointers of either collector (being consulted again for those drops), call collect(), install another condition (which is the one consulted from then on), or panic. Whatever it does, no operation deadlocks or aborts, reachable values survive and unreachable ones are still reclaimed exactly once; a panic reaches the code whose drop consulted the condition, the pointer is given up all the same and the collector keeps working, consulting the condition on later drops.',
  ['programs', 'histories', 'schedules', 'fault_sequences'], 'all histories up to the bound and all small graphs with every order of drops, under conditions that do every sequence of such things at any of the drops, both collectors; pairs of threads under all schedules within the bound',
  'conditions in the tests only return a constant; one that re-enters the collector or panics is never tried',
  [UC, UM, SC, SM],
  [('condition called with nothing borrowed or locked', UC + ' and ' + SC + ': notify_dropped_gc'), ('pointer given up before the condition is consulted', UM + ' and ' + SM + ': Drop for Gc')],
  ['completion, panics', 'destructor and allocator calls'], MAPHOOK)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
