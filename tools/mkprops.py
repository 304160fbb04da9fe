#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
TX='inc/Tecs_transaction.hh'; ST='inc/Tecs_storage.hh'; LK='inc/Tecs_lock.hh'; EN='inc/Tecs_entity.hh'; EC='inc/Tecs.hh'
OB='inc/Tecs_observer.hh'; VW='inc/Tecs_entity_view.hh'; PM='inc/Tecs_permissions.hh'; TR='inc/Tecs_tracing.hh'; CC='src/Tecs.cc'
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','A transaction sees exactly one committed snapshot, unchanged until it ends',
 'Everything a transaction can observe of other transactions (component values it may read, which entities exist, which entities have which component, the entity lists, global components) comes from one single committed state: for every other transaction it shows either all of that transaction\'s changes or none, across all components together. This snapshot does not change for as long as the transaction is active, whatever other transactions start, write or commit meanwhile.',
 ['schedules','programs'],'Every interleaving of any number of transactions with any permission sets and any operations.',
 'The tests run a handful of timed threads (sleep based) and check one or two values; a torn or mixed snapshot needs a reader to start inside the few instructions between two component commits.',
 [TX,ST,LK],[('all commit locks are taken before the first swap','inc/Tecs_transaction.hh ~Transaction'),('readers/writer spinlock per component and for metadata','inc/Tecs_storage.hh ComponentIndex')],
 [('readers, writer','lock words per component','inc/Tecs_storage.hh'),('readComponents/writeComponents','double buffer','inc/Tecs_storage.hh'),('readValidEntities','published entity list','inc/Tecs_storage.hh')],
 ['values returned by Get/GetPrevious/Has/Exists/EntitiesWith/Entities inside concurrent transactions'])
p('C02','Changes are invisible until the transaction ends and visible to all that follow',
 'Changes made in a transaction are never visible in any other transaction before the last reference to it is released. Once that release has returned, every transaction started afterwards, on any thread, sees all of those changes.',
 ['schedules','histories'],'Every interleaving, every way a transaction is held (copies of locks, derived locks) and ended, including by stack unwinding.',
 'One test checks one Script byte with one reader thread; no test covers several components, unwinding, or a reader starting while the release is under way.',
 [TX,LK,ST],[('changes go to the write buffer and are swapped in at the end of the transaction','inc/Tecs_transaction.hh ~Transaction'),('shared ownership of the transaction by all its locks','inc/Tecs_lock.hh Lock::base')],
 [('writeComponents','uncommitted values','inc/Tecs_storage.hh')],['values seen by other transactions before, during and after the release'])
p('C03','Writers of a component exclude each other; no update is lost',
 'At most one active transaction at a time holds write permission for a given component, and a transaction with AddRemove permission is never active together with any other transaction holding write permission. A transaction with write permission starts from the latest committed value, so concurrent read-modify-write transactions never lose an update.',
 ['schedules','programs'],'Every interleaving of any set of writing and AddRemove transactions.',
 'The tests never let two writers of one component race; the benchmark has a single writer thread.',
 [ST,TX],[('exclusive writer word','inc/Tecs_storage.hh WriteLock/WriteUnlock'),('write buffer is made equal to the read buffer before the write lock is released','inc/Tecs_transaction.hh ~Transaction')],
 [('writer','FREE/LOCKED/COMMIT','inc/Tecs_storage.hh')],['counters incremented by racing write transactions'])
p('C04','Only conflicting transactions ever wait for each other',
 'Starting a transaction waits only for a running transaction with write permission on a component it wants to write (or AddRemove if it wants AddRemove), or for a commit in progress on something it wants to read or write. Ending a transaction waits only for running transactions that have read permission on a component it actually accessed for writing, or for any running transaction if it actually added or removed entities or components. In particular readers run together with each other and with writers that have not begun to commit, and a transaction that changed nothing ends without waiting.',
 ['schedules','programs'],'Every reachable combination of active, starting and ending transactions with any permissions.',
 'A few fixed pairs are tested (one reader and one no-op writer); needless blocking in another combination shows up as slowness, not as a failed assertion.',
 [TX,ST,EN,LK],[('per-component locks chosen from the permissions','inc/Tecs_transaction.hh Transaction()'),('write access flags decide what is committed','inc/Tecs_transaction.hh ~Transaction')],
 [('writeAccessedFlags','what was touched for writing','inc/Tecs_transaction.hh')],['whether StartTransaction / release of the last lock returns or waits'])
p('C05','Transactions never deadlock and never miss a wake-up',
 'If every transaction that has started eventually ends, then every call to start a transaction and every release of a transaction eventually returns, for any mix of permissions on any number of threads. A thread that is waiting is woken once what it waits for becomes available.',
 ['schedules','programs'],'Every interleaving of any number of threads running any sequence of (non-nested) transactions.',
 'A deadlock or lost wake-up needs a specific interleaving of lock, commit and unlock steps; the tests exercise one overlapping-commit scenario.',
 [TX,ST],[('block only while nothing is held, otherwise roll back','inc/Tecs_transaction.hh Transaction()'),('read locks and untouched write locks are released before commit locks are taken','inc/Tecs_transaction.hh ~Transaction'),('notify after every unlocking store','inc/Tecs_storage.hh')],
 [('readers, writer','words waited on','inc/Tecs_storage.hh')],['termination of every StartTransaction call and lock release under a controlled scheduler'])
p('C06','Readers that start later cannot hold up a commit that is already waiting',
 'Once an ending transaction is waiting for the current readers of a component (or of the entity metadata), no transaction that wants to read that component (or any new transaction at all, for the metadata) starts before that commit is done. Hence a commit waits only for transactions that were already running, however many overlapping readers keep arriving.',
 ['schedules','histories'],'Every arrival pattern of reading transactions around a pending commit.',
 'The tests use timed sleeps with ten overlapping readers; whether readers can slip in depends on when exactly they arrive.',
 [ST,TX],[('commit-pending state of the writer word turns new readers away','inc/Tecs_storage.hh CommitLock/ReadLock')],
 [('writer == COMMIT','commit pending or running','inc/Tecs_storage.hh')],['whether a reader started after the commit began waiting returns before the commit'])
p('C07','A transaction that is still waiting to start delays nobody',
 'While a call to start a transaction is waiting for one of the resources it needs, it keeps none of the others: every other transaction that does not conflict with a running transaction can start and end meanwhile. When the awaited resource becomes available the waiting call takes all its resources together.',
 ['schedules','programs'],'Every set of simultaneously waiting transaction starts and every order of permissions.',
 'No test has a transaction waiting to start while a third one needs what the waiter could be holding.',
 [TX],[('roll back everything already acquired, then wait holding nothing','inc/Tecs_transaction.hh Transaction()')],
 [('acquired','which resources the starting transaction holds','inc/Tecs_transaction.hh')],['progress of third transactions while a start is waiting'])
p('C08','Locking gives happens-before: no data race on component data',
 'Any two accesses by different threads to the same stored component value, at least one of which modifies it, are ordered by the C++ memory model\'s happens-before relation established by the transactions themselves. This holds on every memory model, not only on strongly ordered processors.',
 ['schedules','programs'],'Every interleaving of transactions; judged by the acquire/release orderings requested, not by what one CPU happens to do.',
 'On x86 a too-weak memory order behaves like the right one, so no test run there can fail.',
 [ST,TX],[('acquire on lock, release on unlock','inc/Tecs_storage.hh')],[('readers, writer','synchronising atomics','inc/Tecs_storage.hh')],
 ['atomic operations with their memory orders and element accesses, recorded by the harness'])
p('C09','An entity handle denotes one entity forever, from its creation to destroy',
 'Every call that creates an entity returns a non-null handle different from every handle returned before by the same instance (until an index has been reused 2^24 times) and different from the handles of other instances. A handle exists in a transaction exactly if its entity was created and not destroyed in that transaction\'s view; a stale, null or foreign handle never refers to any other entity, even after its storage slot is reused.',
 ['histories','inputs'],'Every history of creating and destroying entities, within one and across many transactions and instances.',
 'The tests reuse a hundred slots two or three times in a fixed order, one instance at a time.',
 [LK,EN,TX],[('generation stored with the slot and compared on every access','inc/Tecs_entity.hh'),('free list rebuilt at commit with the next generation and the instance id','inc/Tecs_transaction.hh PreCommitAddRemoveMetadata')],
 [('freeEntities','slots to reuse','inc/Tecs.hh'),('generation','slot generation','inc/Tecs.hh EntityMetadata')],['handles returned by NewEntity, Exists/Existed/Has'])
p('C10','Reads see the transaction\'s own writes; Previous reads see its start state',
 'Inside a transaction, Exists/Has/Get on every lock of that transaction with write permission or derived from it reflect all changes made so far in that transaction, in program order. Existed/Had/GetPrevious and the Previous lists (and everything read through a read-only subset) keep returning the state as of the transaction\'s start, whatever the transaction changed.',
 ['programs','histories'],'Every sequence of operations inside a transaction, through every kind of lock.',
 'The tests check fixed short sequences of Set/Get/Unset with one or two components.',
 [EN,LK],[('permissions bitset selects the write or the read buffer','inc/Tecs_entity.hh, inc/Tecs_lock.hh')],[('permissions','which buffer a lock reads','inc/Tecs_lock.hh')],
 ['return values of Get/Has/Exists/GetPrevious/Had/Existed'])
p('C11','Entity lists contain exactly the right entities, each once',
 'Entities() and EntitiesWith<T>() contain every entity that exists / has T in the transaction\'s view exactly once and nothing else (inside an AddRemove transaction, null entries may additionally stand for entities removed in it). PreviousEntities() and PreviousEntitiesWith<T>() likewise list exactly the entities of the state at the start of the transaction. Lists and Has/Exists always agree, also for a component the lock has no permission for.',
 ['histories','programs','schedules'],'Every history of additions and removals of entities and components.',
 'Tests check list sizes and first elements in a few states.',
 [TX,EN,LK],[('valid entity lists maintained on add/remove and rebuilt at commit','inc/Tecs_transaction.hh PreCommitAddRemove'),('validEntityIndexes locates the entry to clear','inc/Tecs_lock.hh RemoveComponents')],
 [('readValidEntities/writeValidEntities','entity lists','inc/Tecs_storage.hh'),('validEntityIndexes','position of an entity in the list','inc/Tecs_storage.hh')],['EntitiesWith/Entities/Previous* contents against Has/Exists'])
p('C12','A list taken for iteration stays stable while entities are added or removed',
 'An entity list obtained in a transaction keeps its length and the position of its entries while that same transaction creates, destroys or modifies entities: an entry changes only by becoming null, exactly when its entity (or the listed component) is removed. Operations applied directly to an entry of such a list act on that entity completely, even when they remove the entry itself.',
 ['programs'],'Every sequence of modifications during iteration over every kind of list.',
 'Two tests iterate once with 100 removals and 10000 additions; no test removes several components through a list entry.',
 [VW,EN,LK],[('views index into the list with a fixed end','inc/Tecs_entity_view.hh'),('removal overwrites the entry by a null entity','inc/Tecs_lock.hh RemoveComponents'),('index is copied before the entry is cleared','inc/Tecs_entity.hh Destroy/Unset')],
 [('writeValidEntities','list being iterated','inc/Tecs_storage.hh')],['re-reading a held EntityView after each operation'])
p('C13','Adding and removing components affects exactly that component of that entity',
 'Set gives the component of that entity the given value and adds it if missing; a non-const Get of a missing component with AddRemove adds it with its default value; Unset and Destroy remove it (Destroy: all of them). No operation on one entity or component changes the value or presence of any other, including when storage grows or slots are reused, and a re-added component never shows an old value.',
 ['programs','histories'],'Every sequence of operations over any number of entities and component types.',
 'Tests check mostly the entity just modified; cross-effects on other entities, other component positions or after storage growth are not compared.',
 [EN,LK,TX],[('per component bit and per index storage','inc/Tecs_entity.hh Set/Get/Unset'),('reset value before reading','inc/Tecs_entity.hh Get'),('batch allocation','inc/Tecs_lock.hh NewEntity/AllocateComponents')],
 [('metadata bitset','component presence','inc/Tecs.hh')],['full projection of all entities and components after each operation'])
p('C14','What a transaction ends with is exactly what gets committed and stays',
 'After a transaction ended, the committed state equals the state that transaction last saw (its start state plus all its own changes, and nothing else), whatever it touched, however sparse the data is and also if it ended by an exception. Later transactions start from exactly this state for reading and for writing: no earlier value, removed component or removed entity ever resurfaces.',
 ['histories','inputs'],'Every history of transactions of all kinds, dense and sparse storage, any batch size.',
 'With two buffers swapped at commit, an omission shows only two commits later and only for untouched or sparse elements; tests look at the value just written.',
 [TX],[('swap, then copy the read buffer over the write buffer (all or only valid entries)','inc/Tecs_transaction.hh ~Transaction'),('write access flags','inc/Tecs_transaction.hh')],
 [('readComponents/writeComponents','double buffer','inc/Tecs_storage.hh')],['full projection of the committed state in the following transactions'])
p('C15','Global components behave as one transactional value without an entity',
 'A global component is absent until set; Set (and a non-const Get with AddRemove, giving the default value) makes it present, Unset removes it, a const Get never creates it, and Has/Had/Get/GetPrevious report current and start-of-transaction state as for entity components. It is committed atomically with everything else and is independent of all entities.',
 ['histories','programs'],'Every history of operations on global components mixed with entity operations.',
 'One linear history of a single global component is tested; const access to a missing one, several globals, or mixing with entity changes are not.',
 [LK,TX,EC],[('global metadata bitsets and element 0 of the storage','inc/Tecs_lock.hh Get/Set/Unset/Has'),('published at commit','inc/Tecs_transaction.hh ~Transaction')],
 [('globalReadMetadata/globalWriteMetadata','presence bits','inc/Tecs.hh')],['Has/Had/Get/GetPrevious of global components'])
p('C16','Observers receive exactly the net additions and removals of each commit',
 'For each committed transaction an observer receives exactly one ADDED event per entity (component) present after and absent before, and one REMOVED event per entity (component) present before and absent after, and no other events; a component event carries the handle and the committed value (ADDED) or the value before the transaction (REMOVED). Events of an earlier commit come before those of a later one.',
 ['histories','programs'],'Every history of AddRemove transactions, including add-and-remove in the same transaction.',
 'One fixed history with one observer of each of three kinds is compared.',
 [TX,EC,OB],[('difference of old and new metadata at commit','inc/Tecs_transaction.hh PreCommitAddRemove'),('append to every observer queue under the metadata commit lock','inc/Tecs.hh ObserverList::Commit')],
 [('writeQueue, observers','event queues','inc/Tecs.hh')],['events returned by Observer::Poll'])
p('C17','Each observer gets every event once, from watch to stop, independent of others',
 'An observer receives the events of every commit from the one in which it was registered until it is stopped, each exactly once, in the same order as every other observer of that kind, however polling is interleaved with transactions and other observers. After Stop (or on an unregistered observer) Poll returns nothing and the others are unaffected; events become visible only in transactions started after the commit.',
 ['histories','schedules'],'Every interleaving of Watch, Stop, Poll and commits over several observers.',
 'Only one observer per event kind exists in the tests, all registered first and stopped together.',
 [LK,EC,OB],[('one queue per observer, shared from the list, weak from the handle','inc/Tecs_lock.hh Watch/StopWatching'),('queue drained by Poll','inc/Tecs_observer.hh')],
 [('observers','registered queues','inc/Tecs.hh ObserverList')],['Poll results of several observers'])
p('C18','Invalid operations are rejected and change nothing',
 'In checked mode Get, GetPrevious, Set, Unset and Destroy on a null, stale, foreign or never-created entity, const Get or Set without AddRemove on a missing component, and access to a missing global component throw an exception, exactly in those cases, and leave all observable state unchanged. Has, Had, Exists and Existed never throw and return false there.',
 ['inputs','histories'],'Every handle (including indexes beyond storage) and every state.',
 'Only null entities and one missing component are tried.',
 [EN,LK],[('index, existence, generation and presence checks before the access','inc/Tecs_entity.hh'),('same for globals','inc/Tecs_lock.hh')],
 [('metadata','existence and presence bits','inc/Tecs.hh')],['exceptions thrown and state afterwards'])
p('C19','Locks share one transaction that ends exactly with the last of them',
 'All locks copied or derived (subset, conversion, read-only subset, dynamic) from a started transaction refer to that one transaction: it stays active, holding its permissions, until the last of them is destroyed, in whatever order, and it ends exactly once at that moment. A lock converted to fewer permissions still sees the transaction\'s own changes, while a read-only subset sees the start state.',
 ['programs','histories'],'Every way of copying, narrowing and destroying locks, on any thread.',
 'One test holds one extra copy.',
 [LK,TX],[('shared_ptr to the transaction','inc/Tecs_lock.hh'),('permissions are copied or cleared on derivation','inc/Tecs_lock.hh Lock(source), ReadOnlySubset')],
 [('base','shared transaction','inc/Tecs_lock.hh')],['UseCount, visibility and blocking before and after each lock is destroyed'])
p('C20','A dynamic lock grants exactly what its transaction holds',
 'TryLock on a dynamic lock succeeds whenever the lock it was made from has the requested permissions, and never yields a lock with a read, write or add/remove permission that the underlying transaction does not hold or that was given up by a read-only subset. A successful TryLock gives access to the same transaction with the same view; a failed one has no effect.',
 ['programs','inputs'],'Every combination of transaction permissions, static permissions and requested permissions.',
 'One Read lock with one granted and one refused request is tested.',
 [LK,PM],[('bitset comparison of requested and held permissions','inc/Tecs_lock.hh DynamicLock::TryLock')],[('readPermissions, permissions','held permissions','inc/Tecs_lock.hh')],['has_value() of TryLock over a permission matrix'])
p('C21','Nested transactions are rejected exactly when the thread already has one',
 'Starting a transaction throws if and only if the calling thread already has an active transaction on the same instance (or has reached the limit of simultaneous transactions); transactions on other instances or other threads do not matter. A rejected start leaves everything as it was, and once the active transaction has ended the thread can start a new one.',
 ['histories','programs'],'Every nesting pattern of transactions over several instances and threads.',
 'One nested and one cross-instance case is tested, never the state afterwards or the limit.',
 [TX,CC],[('per-thread list of active instances','inc/Tecs_transaction.hh BaseTransaction, src/Tecs.cc')],[('activeTransactions','instances active on this thread','src/Tecs.cc')],['exceptions from StartTransaction and subsequent starts'])
p('C22','Transaction ids are unique and increase',
 'Every transaction, on whatever instance or thread, has an id different from that of every other transaction in the process, the same on all its locks; a transaction started after another start has returned has a greater id. Instances created one after another have distinct identifiers, which are embedded in their entities.',
 ['schedules','histories'],'Every interleaving of starts on any threads and instances.',
 'Ids are checked single-threaded for the first two transactions.',
 [TX,LK,EC,CC],[('atomic counters','src/Tecs.cc nextTransactionId, nextEcsId')],[('nextTransactionId','last id handed out','src/Tecs.cc')],['GetTransactionId, GetInstanceId'])
p('C23','Entity views behave as bounded read-only sequences',
 'An entity view of n entities yields exactly those entities in order when iterated forward, the reverse when iterated backward, and element i at position i for 0 <= i < n; in checked mode access outside throws. subview(offset, count) is the view of the up to count entities from position offset (all remaining by default), and rejects an offset beyond the end.',
 ['inputs','programs'],'Every list length, offset, count and access path, including nested sub-views and empty views.',
 'Tests index and iterate only full views; sub-views and reverse iteration are never used.',
 [VW],[('start/end index into the list, bounds checks','inc/Tecs_entity_view.hh')],[('start_index, end_index','view bounds','inc/Tecs_entity_view.hh')],['elements obtained through every access path'])
p('C24','A performance trace is a true, ordered record of the locking that happened',
 'A trace contains, per component, per metadata and for transactions, exactly the lock, unlock, commit and wait events that happened between starting and stopping it (the first ones, up to the configured capacity), each with the right thread and non-decreasing in time per thread, and in an order that is itself a legal lock history. Starting a started trace or stopping a stopped one is rejected, and the saved CSV contains the same events under the right column names.',
 ['schedules','histories','inputs'],'Every interleaving of traced transactions, every start and stop position.',
 'Tests never look at trace contents.',
 [TR,ST,TX,EC],[('event appended at each lock operation','inc/Tecs_storage.hh traceInfo.Trace'),('atomic index into a bounded buffer','inc/Tecs_tracing.hh TraceInfo')],
 [('events, nextEventIndex','trace buffer','inc/Tecs_tracing.hh')],['StopTrace result and SaveToCSV output'])
p('C25','Build configurations do not change the behaviour of valid programs',
 'For programs that perform only valid operations, every supported configuration (checked or unchecked, C++17 or C++20, header-only or library, tracing on or off, any allocation batch size and spin-lock retry count, any number and order of component types) gives the same results.',
 ['configurations','programs'],'All listed configuration switches over arbitrary valid programs.',
 'The tests build two configurations with one component list and the default batch size.',
 [EC,TX,LK,EN,ST,VW,TR,'CMakeLists.txt'],[('conditional compilation','TECS_UNCHECKED_MODE, TECS_HEADER_ONLY, __cpp_lib_atomic_wait, TECS_ENABLE_PERFORMANCE_TRACING')],(),['the same conformance traces in each configuration'])
p('C26','Entity ids compare, hash and convert consistently',
 'For all indexes, generations and instance identifiers: packing into and unpacking from the generation and the 64-bit form are inverse and lose nothing (the generation modulo the bits left by the identifier), equality means same index and generation, ordering is a strict total order by index then generation, equal entities hash equally, and only generation zero is null.',
 ['inputs'],'All index, generation and identifier values.',
 'One map-key test with one entity.',
 [EN],[('shift and mask helpers','inc/Tecs_entity.hh GenerationWithIdentifier etc.'),('operators','inc/Tecs_entity.hh')],(),['results of the conversion functions and operators'])
p('C27','The type system admits an operation exactly if the lock has the permission',
 'A lock type reads a component exactly if it has Read, Write, ReadAll, WriteAll or AddRemove covering it, modifies it exactly with Write, WriteAll or AddRemove, and creates, destroys, removes or observes exactly with AddRemove; a lock converts to another lock type exactly if it has all of that type\'s permissions. Anything else is rejected at compile time.',
 ['programs','configurations'],'All permission sets and all operations over any component list.',
 'The tests only contain programs that compile, so a missing compile-time check is invisible to them.',
 [PM,LK,EN],[('permission traits and static_asserts','inc/Tecs_permissions.hh, inc/Tecs_lock.hh, inc/Tecs_entity.hh')],(),['trait values and whether generated snippets compile'])
p('C28','A reference denotes the component itself for as long as it may be used',
 'A reference returned by Get, Set or GetPrevious (of an entity or a global component) denotes the component itself, neither a copy nor a place: read at any later point of the transaction it yields the value every other access yields then (through GetPrevious or a read-only lock: the value at the start), and a write through it is seen by all later reads of the transaction and committed with it. It stays usable until the transaction ends, whatever happens to other entities and components and whatever other transactions do; removing that component, or (for the current state of entities) creating an entity, ends it earlier.',
 ['programs','schedules'],'Every way to obtain a reference, every later point at which it is used, every operation in between by this or another transaction.',
 'Tests use each reference at once, in the expression that obtained it or right after it.',
 [EN,LK,ST,TX],[('choice of the copy to refer to','inc/Tecs_entity.hh Get, Set, GetPrevious; inc/Tecs_lock.hh'),('storage that only grows on creation','inc/Tecs_lock.hh NewEntity')],(),['value read through a kept reference; later reads after a write through it'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,s)
    print('valid',len(P))
except ImportError: print(len(P))
