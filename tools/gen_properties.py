#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
H = "gmlc/containers/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[H + f for f in files],
            state=[dict(name=a, meaning=b, where=H + c) for a, b, c in state],
            mechanism=[dict(name=a, where=H + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- raw buffers
p("C01", "CircularBuffer: accepted blocks come out once, in order, byte-exact",
  "For any sequence of pushes, pops and clears on a circular buffer of any capacity, every block whose push returned true is "
  "delivered by pop exactly once, in push order and byte for byte, and nothing else is ever delivered. A pop into a destination that is too "
  "small returns minus the block's size and leaves the block in place, and a refused push (no room, size <= 0, null data) changes "
  "nothing. Neither the buffer nor its owner-supplied raw variant ever reads or writes memory outside the block it manages.",
  ["inputs", "histories"], "all capacities, block sizes and operation orders, in particular every way the write and read position can meet the end of the memory block or each other",
  "The tests use a handful of fixed sizes; the wrap decision depends on the arithmetic relation between capacity, block sizes and positions, "
  "and only exhaustive-ish variation reaches the exact-fit, near-end and full-wrap cases.",
  ["CircularBuffer.hpp"],
  [("wrap marker / end-of-block rule in push and pop", "CircularBuffer.hpp"), ("length prefix before each block", "CircularBuffer.hpp")],
  [("write/read position", "positions inside the block; equality means empty", "CircularBuffer.hpp")],
  ["return values of push and pop", "bytes delivered by pop"])
p("C02", "CircularBuffer: space, size and emptiness answers match what push/pop do",
  "At every point in any history, the space query for n > 0 bytes answers true exactly when a push of n bytes would be accepted, the next-size query "
  "equals the size the next pop delivers (0 when nothing is stored), and the buffer reports empty exactly when no accepted block is left. "
  "A new or cleared buffer of capacity c > 4 accepts any block of up to c-4 bytes, and a buffer whose unused space exceeds twice the "
  "largest block in play (counting 4 bytes of bookkeeping per block, plus 16) never refuses a push.",
  ["inputs", "histories"], "all capacities, sizes and operation orders",
  "The tests ask the queries at a few fixed positions; agreement of two separately written decision procedures must hold in every reachable position.",
  ["CircularBuffer.hpp"], [("isSpaceAvailable / push / nextDataSize / empty", "CircularBuffer.hpp")],
  observe=["isSpaceAvailable, nextDataSize, empty versus push/pop results"])
p("C03", "CircularBuffer: resize, copy and move preserve the stored blocks",
  "Resizing a circular buffer either succeeds, reports the requested capacity and leaves exactly the same blocks to be popped in the same order, or "
  "throws and changes nothing; growing and any resize of an empty buffer always succeed, and the added room is usable. A copy (construction or assignment, also to itself, from any state including default-constructed, empty or "
  "moved-from) holds the same blocks and capacity and is independent of the original, and a move transfers them and leaves an empty source that can be "
  "resized, assigned and used again. All owned memory is released exactly once.",
  ["inputs", "histories"], "all histories interleaving push/pop with resize up and down, copies, moves and destruction over several buffers",
  "Tests resize once from a linear layout; wrapped layouts, exact fits, repeated resizes and moved-from/empty sources are not reached.",
  ["CircularBuffer.hpp"], [("resize (four layout cases), copy/move constructors and assignments", "CircularBuffer.hpp")],
  observe=["pop results after resize/copy/move", "capacity()", "heap accounting"])
p("C04", "StackBuffer: LIFO delivery, byte-exact, with reversal of the pending order",
  "For any sequence of pushes, pops, reversals and clears, a stack buffer delivers the block that is on top of the pending order, byte for byte, where "
  "push puts a block on top and reverse inverts the whole pending order; a too small destination yields minus the size and a refused push changes nothing. "
  "The block count, next-size and emptiness answers always match, the space query for n > 0 answers true exactly when a push of n bytes is accepted, "
  "and (without a reversal since it was last empty) a push is accepted exactly when the stored bytes plus 8 bytes of bookkeeping per block fit the capacity. "
  "Memory outside the managed block is never touched.",
  ["inputs", "histories"], "all capacities, block sizes and operation orders",
  "Tests push three fixed blocks and reverse once; interleavings of reverse with push and pop, and exact-fit boundaries, are not enumerated.",
  ["StackBuffer.hpp"], [("offset/size index growing down from the end of the block", "StackBuffer.hpp"), ("reverse swaps the index", "StackBuffer.hpp")],
  observe=["push/pop results", "getCurrentCount, nextDataSize, empty, isSpaceAvailable"])
p("C05", "StackBuffer: resize, copy, move and swap preserve the stored blocks",
  "Resizing a stack buffer either succeeds, reports the requested capacity, keeps every stored block and makes exactly the room implied by the new capacity "
  "usable, or (too small or negative size) reports failure and changes nothing; growing always succeeds, and up to the reported raw block capacity a resize works within the memory at hand. Copies (assignment to itself included) hold the same blocks and are independent, moves and swaps exchange "
  "contents completely, and a moved-from buffer is empty and can be resized, assigned and used again. All owned memory is released exactly once.",
  ["inputs", "histories"], "all histories interleaving push/pop/reverse with resize, copies, moves, swaps and destruction over several buffers",
  "Tests resize once and never push afterwards into the gained space with data present, nor reuse moved-from buffers.",
  ["StackBuffer.hpp"], [("resize, resizeMemory, copy/move constructors and assignments, swap", "StackBuffer.hpp")],
  observe=["pop/push results after the operation", "capacity()", "heap accounting"])
# ---------------------------------------------------------------- block containers
p("C06", "StableBlockVector behaves like std::vector for every operation sequence",
  "For any block size, element type and sequence of operations (sized construction, push/emplace/pop at the back, assign and move_assign from ranges, "
  "copy/move construction and assignment, clear, shrink_to_fit, element access), a StableBlockVector has the same size, elements and order as a std::vector given the "
  "same operations, with at() throwing exactly for out-of-range indices and pop on empty being a no-op. Copies are independent, and a moved-from container is empty and fully usable.",
  ["inputs", "histories", "configurations"], "all operation histories, block sizes 2^0.. and element types (trivial and owning)",
  "Tests use fixed fill patterns with one or two block sizes; block-boundary states reached through different routes (sized construction, popping back over a boundary, reuse of freed blocks) have different internal representations.",
  ["StableBlockVector.hpp", "BlockIterator.hpp"], [("block table growth, boundary handling in push/pop/back/end/clear", "StableBlockVector.hpp")],
  [("block table, last block fill, free block list", "where the next element goes", "StableBlockVector.hpp")],
  ["size, operator[], at, front, back, iteration"])
p("C07", "StableBlockDeque behaves like std::deque for every operation sequence",
  "For any block size, element type and sequence of operations (sized construction, push/emplace/pop at both ends, assign and move_assign, copy/move, "
  "clear, shrink_to_fit, element access), a StableBlockDeque has the same size, elements and order as a std::deque given the same operations, with at() throwing exactly "
  "for out-of-range indices and pops on empty being no-ops. Copies are independent, and a moved-from container is empty and fully usable.",
  ["inputs", "histories", "configurations"], "all operation histories, block sizes 2^0.. and element types, including long drifts in one direction that recentre or regrow the block table",
  "Tests use fixed patterns; the table-shift and table-grow paths need hundreds of net pushes on one side and the boundary states combine two ends.",
  ["StableBlockDeque.hpp", "BlockIterator.hpp"], [("blockCheck/blockCheckFront table shift and growth; front/back fill indices", "StableBlockDeque.hpp")],
  [("front/back block and fill indices", "where the next element goes on each side", "StableBlockDeque.hpp")],
  ["size, operator[], at, front, back, iteration"])
p("C08", "Stable containers never move an element while it is in the container",
  "In StableBlockVector, StableBlockDeque, the stable forms of the mapped vectors and the pointer-based mapped vectors, the address of an element stays the same from its insertion until "
  "that element is removed (or the container assigned over, cleared or destroyed), across any growth, other insertions and removals, shrink_to_fit, and moving of the container. "
  "The value at that address changes only when that very element is written.",
  ["histories", "configurations"], "all operation histories over all stable containers",
  "Tests take no addresses across growth; a relocation only shows as a dangling reference.",
  ["StableBlockVector.hpp", "StableBlockDeque.hpp", "MappedVector.hpp", "StringMappedVector.hpp", "DualMappedVector.hpp", "DualStringMappedVector.hpp", "MappedPointerVector.hpp", "DualMappedPointerVector.hpp"],
  [("elements are built in fixed blocks, only the block table is copied", "StableBlockVector.hpp"), ("unique_ptr per element", "MappedPointerVector.hpp")],
  observe=["addresses returned by element access"])
p("C09", "Block containers construct, destroy and free everything exactly once",
  "Over any history of a StableBlockVector or StableBlockDeque, every element object is constructed exactly once before use and destroyed exactly once, and at every quiescent point the number of live elements equals the size. "
  "Every block obtained from the user's allocator is returned exactly once with the size it was requested with, blocks released by shrinking are reused before new ones are requested, and shrink_to_fit returns all blocks "
  "not in use. After destruction no element, block or table is left over.",
  ["histories", "configurations"], "all histories including clears, pops over block boundaries, copies, moves, assignments in every state",
  "Tests use no counting element or allocator; destroying an unconstructed slot of a trivial type is invisible.",
  ["StableBlockVector.hpp", "StableBlockDeque.hpp"], [("freeAll, clear, moveBlocktoAvailable, getNewBlock", "StableBlockVector.hpp"), ("freeAll, clear, moveBlocktoAvailable, getNewBlock", "StableBlockDeque.hpp")],
  observe=["element constructor/destructor counts per address", "allocator calls", "heap accounting"])
p("C10", "Block container iterators agree with indices and standard algorithms",
  "For every StableBlockVector and StableBlockDeque state, begin() plus k (by ++, += k, or + k) refers to element k, end() is reached after exactly size() steps and from end() backwards likewise, positive and negative steps "
  "across block boundaries cancel out, const and non-const iterators to the same position compare equal and to different positions unequal, and an empty container has begin() == end(). Standard algorithms over these iterators (find, count, "
  "distance, reverse, copy, accumulate, transform, ...) give the same result as over the equivalent std sequence for every element type.",
  ["inputs", "histories", "configurations"], "all container states x all offsets, block sizes and element types",
  "Tests walk forward over a few fixed sizes; the boundary states at the end of a full block or full block table are reached by specific sizes only.",
  ["BlockIterator.hpp", "StableBlockVector.hpp", "StableBlockDeque.hpp"], [("check/checkNeg block stepping", "BlockIterator.hpp"), ("begin/end", "StableBlockVector.hpp"), ("begin/end", "StableBlockDeque.hpp")],
  observe=["iterator positions, values and comparisons"])
p("C11", "A throwing element constructor leaves block and mapped containers unchanged",
  "If constructing the new element throws during a push, emplace (either end) or a mapped-vector insert, the container keeps exactly its previous size, elements and search terms, stays usable, and "
  "no element is leaked, destroyed twice or destroyed without having been constructed.",
  ["fault_sequences", "histories"], "all histories with a construction failure injected at any insertion",
  "No test injects a throwing constructor.",
  ["StableBlockVector.hpp", "StableBlockDeque.hpp", "MappedVector.hpp", "StringMappedVector.hpp", "DualMappedVector.hpp", "DualStringMappedVector.hpp", "MappedPointerVector.hpp", "DualMappedPointerVector.hpp"],
  [("element is constructed before size, fill index and search map are updated", "StableBlockVector.hpp")],
  observe=["size, elements and search results after the exception", "element lifetime accounting"])
# ---------------------------------------------------------------- mapped vectors
MAPWHY = "Tests remove one or two uniquely named elements; extra search terms, elements without a term, empty-string/zero terms, and removals followed by reuse are not combined."
p("C12", "MappedVector: positions and search terms always agree, through any removals",
  "For any sequence of inserts (with or without a search term), insert_or_assign, added search terms, removals by term or index, modifications and clears on a MappedVector (either storage form, hashed or ordered terms), a search "
  "finds exactly the element its term was attached to, a term of a removed element is found by nothing and can be reused, and no other element, order or term is disturbed. Insert refuses exactly the existing terms, "
  "insert_or_assign overwrites exactly the named element. In the stable form a removed element that is not the last one only loses all its search terms and keeps its place.",
  ["inputs", "histories", "configurations"], "all operation histories, term types (string, integer, ordered user type) and storage forms", MAPWHY,
  ["MappedVector.hpp", "MapTraits.hpp"], [("index shifting and term erasure in removeIndex/remove", "MappedVector.hpp")],
  [("search map", "term -> index", "MappedVector.hpp")], ["find, operator[], at, size, iteration, returned indices"])
p("C13", "StringMappedVector: name lookups always agree and copies stand alone",
  "For any sequence of inserts, insert_or_assign, removals, modifications and clears, a StringMappedVector finds by each name exactly the element it was attached to, independently of the lifetime of the character data passed in, "
  "and removed names are found by nothing and can be reused without disturbing other elements or names. A copy answers exactly like the original at the time of copying and keeps doing so after the original is changed or destroyed; a move transfers everything. "
  "In the stable form a removed element that is not the last one only loses its name and keeps its place.",
  ["inputs", "histories", "configurations"], "all operation histories over several vectors with temporaries as names, copies, moves and destruction", MAPWHY + " No test searches a copy after its original is gone.",
  ["StringMappedVector.hpp"], [("names kept in stable storage, map keyed by views into it", "StringMappedVector.hpp")],
  [("search map", "name view -> index", "StringMappedVector.hpp")], ["find, operator[], at, size, iteration, returned indices"])
p("C14", "MappedPointerVector: positions and search terms always agree",
  "For any sequence of inserts (by pointer or by value, with or without a search term), insert_or_assign, added search terms, removals, clears and moves, a MappedPointerVector search returns exactly the object its term was attached to and null "
  "for unattached or removed terms, removing an element removes all its terms and no other, later elements keep their terms as they shift down, and out-of-range indexing yields null. Null pointers are elements like any other, and a refused insertion leaves the offered object with the caller. Every owned object is destroyed exactly once.",
  ["inputs", "histories", "configurations"], "all operation histories and term types", MAPWHY,
  ["MappedPointerVector.hpp"], [("index shifting and term erasure in removeIndex/remove", "MappedPointerVector.hpp")],
  [("search map", "term -> index", "MappedPointerVector.hpp")], ["find, operator[], size, iteration"])
p("C15", "DualMappedVector: both search spaces stay consistent through any history",
  "For any sequence of inserts with both, either or no search term, insert_or_assign, added search terms (by index or by an existing term of either kind), removals by either kind of term or by index, and clears on a DualMappedVector (either storage form), "
  "each term of either kind finds exactly the element it is attached to. A two-term insert is refused exactly when both terms are already present, a one-term insert exactly when its term is present, and adding a term never redirects an existing one. "
  "Removing an element removes all its terms of both kinds and disturbs no other element or term (in the stable form an element that is not last keeps its place without terms).",
  ["inputs", "histories", "configurations"], "all operation histories, term types and storage forms", MAPWHY,
  ["DualMappedVector.hpp", "MapTraits.hpp"], [("removeIndex, addSearchTerm, insert_or_assign", "DualMappedVector.hpp")],
  [("two search maps", "term -> index", "DualMappedVector.hpp")], ["find by either kind, operator[], size, iteration, returned indices"])
p("C16", "DualStringMappedVector: both search spaces stay consistent, copies stand alone",
  "A DualStringMappedVector keeps, for any history of inserts, insert_or_assign, added search terms of either kind, removals and clears, each name and each secondary term attached to exactly its element, independently of the lifetime of the character data passed in; refusals and removals follow "
  "the same rules as for the dual mapped vector. A copy answers like the original at the time of copying and keeps doing so after the original is changed or destroyed; a move transfers everything.",
  ["inputs", "histories", "configurations"], "all operation histories over several vectors with temporaries as names, copies, moves and destruction", MAPWHY + " No test searches a copy after its original is gone.",
  ["DualStringMappedVector.hpp"], [("names kept in stable storage; removeIndex, addSearchTerm", "DualStringMappedVector.hpp")],
  [("two search maps", "term -> index", "DualStringMappedVector.hpp")], ["find by either kind, operator[], size, iteration, returned indices"])
p("C17", "DualMappedPointerVector: both search spaces stay consistent",
  "For any sequence of inserts with both or one search term (by pointer or value), insert_or_assign, removals by either kind of term or by index, clears and moves, a DualMappedPointerVector search by either kind returns exactly the object the term is attached to and null otherwise. "
  "Removing an element removes its terms of both kinds and no others (also when it has only one kind, or when another element uses an empty or zero term), and later elements keep their terms as they shift. Null pointers are elements like any other, a refused insertion leaves the offered object with the caller, and every owned object is destroyed exactly once.",
  ["inputs", "histories", "configurations"], "all operation histories and term types", MAPWHY,
  ["DualMappedPointerVector.hpp"], [("index shifting and term erasure in removeIndex/remove", "DualMappedPointerVector.hpp")],
  [("two search maps", "term -> index", "DualMappedPointerVector.hpp")], ["find by either kind, operator[], size, iteration"])
# ---------------------------------------------------------------- queues
SCHEDWHY = "Tests run a few thread mixes on real threads; an ordering bug needs one particular interleaving of two or three operations between lock regions."
p("C18", "SimpleQueue is a linearizable FIFO queue",
  "Under any interleaving of pushes, emplaces, vector pushes, pops, peeks, size and emptiness queries and clears from any number of threads, the results are those of some sequential FIFO queue order consistent with real time: every element is delivered exactly once or cleared, none is lost, duplicated or "
  "reordered, a pushed vector stays contiguous and in order, and pop returns nothing only if the queue was empty at some moment during the call. No operation ever blocks forever.",
  ["schedules", "histories"], "all interleavings of small concurrent programs (up to 4 threads)", SCHEDWHY,
  ["SimpleQueue.hpp"], [("two vectors, two locks, pull lock taken before push lock; swap-and-reverse", "SimpleQueue.hpp")],
  [("push and pull vectors, empty flag", "newest and oldest elements", "SimpleQueue.hpp")], ["operation results and completion"])
p("C19", "BlockingQueue is a linearizable FIFO queue",
  "Under any interleaving of pushes, emplaces, blocking, timed, callback and non-blocking pops and clears from any number of threads, the results are those of some sequential FIFO queue order consistent with real time: nothing is lost, duplicated, invented or reordered, a non-blocking or timed-out pop returns "
  "nothing only if the queue was empty at some moment during the call. The answers of size, empty and try_peek belong to the same order: each describes the content at some moment during its call.",
  ["schedules", "histories"], "all interleavings of small concurrent programs (up to 4 threads), with injected spurious wakeups and timeouts", SCHEDWHY + " The existing tests of this class are excluded as flaky.",
  ["BlockingQueue.hpp"], [("two vectors, two locks, atomic empty flag", "BlockingQueue.hpp")],
  [("push and pull vectors, empty flag", "newest and oldest elements", "BlockingQueue.hpp")], ["operation results"])
p("C20", "BlockingQueue never leaves a consumer waiting while elements are available",
  "Under any interleaving, if as many elements are pushed as there are blocking pops, every blocking pop (plain, timed or callback form) returns, without needing any later push: no wakeup is lost and no operations deadlock. "
  "A timed pop returns nothing only after its full timeout has passed with nothing to take, returns an element (rather than timing out) when one is available, and gives up when its timeout has passed, however often it was woken up without an element; the callback form calls its function only when it found the queue empty, before waiting, and takes an element that the function itself pushes.",
  ["schedules", "histories"], "all interleavings of small producer/consumer programs, including several consumers, timeouts and spurious wakeups", "A lost wakeup needs one particular interleaving and shows as a hang; the existing tests hang now and then and are excluded for it.",
  ["BlockingQueue.hpp"], [("condition variable tied to the pull lock, notification on leaving the empty state", "BlockingQueue.hpp")],
  [("empty flag", "decides whether a push notifies", "BlockingQueue.hpp")], ["completion of blocking pops in a harness-owned schedule and clock"])
p("C21", "BlockingPriorityQueue: priority first, FIFO within each channel, nothing lost",
  "Under any interleaving of normal and priority pushes/emplaces, all kinds of pops, and clears from any number of threads, the results are those of some sequential order, consistent with real time, of a queue that delivers priority elements before normal ones and first-in first-out within each "
  "channel: nothing is lost, duplicated, invented or reordered, and a pop returns nothing only if both channels were empty at some moment during the call. The answers of empty and try_peek belong to the same order: each describes the content of both channels at some moment during its call.",
  ["schedules", "histories"], "all interleavings of small concurrent programs (up to 4 threads), with injected spurious wakeups and timeouts", SCHEDWHY + " The existing tests of this class are excluded as flaky.",
  ["BlockingPriorityQueue.hpp"], [("separate priority channel checked first on every pop", "BlockingPriorityQueue.hpp")],
  [("push/pull vectors, priority channel, empty flag", "pending elements", "BlockingPriorityQueue.hpp")], ["operation results"])
p("C22", "BlockingPriorityQueue never leaves a consumer waiting with elements available",
  "Under any interleaving, if as many elements (normal or priority) are pushed as there are blocking pops, every blocking pop (plain, timed or callback form) returns, without needing any later push: no wakeup is lost and no operations deadlock. "
  "A timed pop returns nothing only after its full timeout has passed with nothing to take, and gives up when its timeout has passed, however often it was woken up without an element; the callback form calls its function only when it found the queue empty, before waiting, and takes an element that the function itself pushes.",
  ["schedules", "histories"], "all interleavings of small producer/consumer programs over both channels, including several consumers, timeouts and spurious wakeups", "A lost wakeup needs one particular interleaving and shows as a hang; the existing tests hang now and then and are excluded for it.",
  ["BlockingPriorityQueue.hpp"], [("condition variable tied to the pull lock, notification on leaving the empty state", "BlockingPriorityQueue.hpp")],
  [("empty flag", "decides whether a push notifies", "BlockingPriorityQueue.hpp")], ["completion of blocking pops in a harness-owned schedule and clock"])
p("C23", "AirLock hands each loaded object to exactly one taker and wakes waiting loaders",
  "Under any interleaving of try_load, blocking load, try_unload and loaded-queries, an air lock behaves as a single slot: a load succeeds only into an empty slot, each loaded object is handed out exactly once and intact, a failed try_load leaves the caller's object untouched, and the results are those of some sequential order consistent with real time. "
  "A blocking load returns whenever enough unloads happen: no unload is missed by waiting loaders and no operations deadlock.",
  ["schedules", "histories"], "all interleavings of small loader/unloader programs with several waiting loaders and spurious wakeups", "The tests use one loader and one unloader thread.",
  ["AirLock.hpp"], [("double-checked loaded flag under the door lock; condition variable for loaders", "AirLock.hpp")],
  [("loaded flag and slot", "whether cargo is present", "AirLock.hpp")], ["operation results and completion in a harness-owned schedule"])
p("C24", "WorkQueue runs every accepted block exactly once, promptly, and shuts down",
  "For any number of workers and any interleaving of additions (single or vector, any priority) with the workers, every accepted unfinished block that is not discarded by closing is executed exactly once, and as long as the queue is open a queued block is started as soon as a worker is idle, without waiting for any timeout. "
  "With zero workers each block has been executed when the add call returns. Closing (explicitly or by destruction) always terminates, after which no block is running or will start.",
  ["schedules", "histories", "configurations"], "all interleavings of small programs of adders, workers (0-3) and close", "The tests use sleeps and a single adding thread; a missed notification hides behind the 5 s poll.",
  ["WorkQueue.hpp", "SimpleQueue.hpp"], [("worker loop with condition variable and 5 s poll; close pushes one dummy block per worker", "WorkQueue.hpp")],
  [("three priority queues, halt flag", "pending work", "WorkQueue.hpp")], ["executions recorded by the blocks, virtual time, completion of close"])
p("C25", "WorkQueue serves high first, then medium and low in the configured ratio",
  "Taken from a queue that is not otherwise changing, work blocks come out high (and required) priority first, first-in first-out within each priority, and while both medium and low blocks are waiting exactly N medium blocks are served between two consecutive low blocks, N being the configured ratio (4 by default or when set to a value <= 0). "
  "No block is dropped or duplicated, and the number of pending blocks and the emptiness answer are exact.",
  ["inputs", "histories"], "all sequences of additions, extractions and ratio changes", "Tests check two fixed fill patterns with ratio 3.",
  ["WorkQueue.hpp"], [("block selection with a medium counter", "WorkQueue.hpp")], [("medium counter", "mediums since the last ratio-driven low", "WorkQueue.hpp")], ["order of blocks returned by getWorkBlock, numBlock, isEmpty"])
p("C26", "WorkBlock runs its task once per arming and delivers its result or exception",
  "For any sequence of construct (default, function or packaged task), execute, reset, work/task update, move and query, a work block runs its current task on the first execute after construction, reset or update and on no other, reports finished exactly after that execute, and its return value/future (also one obtained beforehand) delivers the value or the exception of that run. "
  "A default-constructed block can be created, runs nothing, and can be given work later.",
  ["inputs", "histories", "fault_sequences"], "all operation sequences, value and void results, throwing tasks", "Tests cover one function block and one update; default construction, exceptions and repeated re-arming are untested.",
  ["WorkQueue.hpp"], [("packaged task, shared future, finished/loaded flags", "WorkQueue.hpp")], observe=["run counts, isFinished, futures"])
p("C27", "Thread-safe containers are free of data races and keep elements intact",
  "Under any interleaving of their documented thread-safe operations, SimpleQueue, BlockingQueue, BlockingPriorityQueue, AirLock and the WorkQueue's own bookkeeping perform no two conflicting unsynchronised memory accesses, so that every element arrives with the content it was given, ordered after everything its producer did before handing it over.",
  ["schedules", "histories"], "all interleavings of small concurrent programs over every public operation", "A data race rarely changes a test's outcome on x86 and the suite is not run under a race detector.",
  ["SimpleQueue.hpp", "BlockingQueue.hpp", "BlockingPriorityQueue.hpp", "AirLock.hpp", "WorkQueue.hpp"],
  [("push and pull locks; door lock; release/acquire loaded flag", "SimpleQueue.hpp")], observe=["race detector reports with happens-before from the library's own synchronisation"])
p("C28", "Queues: bookkeeping and ownership transfer are exact in sequential use",
  "Used from one thread, SimpleQueue, BlockingQueue, BlockingPriorityQueue and AirLock give for any operation sequence, including vector pushes of any length (also empty), capacity reservation, clear, move construction, move assignment and destruction, exactly the results of a sequential FIFO (priority FIFO, single slot) model, with size, emptiness and peek exact after every step. "
  "Moves transfer all pending elements in order and leave a source that is empty, says so, and can be used again; move-only elements are supported and every element object is destroyed exactly once.",
  ["inputs", "histories"], "all sequential operation sequences over several queues and element types", "Tests move a queue once in one layout; the split of pending elements over the two internal vectors at that moment varies with history.",
  ["SimpleQueue.hpp", "BlockingQueue.hpp", "BlockingPriorityQueue.hpp", "AirLock.hpp"], [("move constructors and assignments, pushVector, clear", "SimpleQueue.hpp")], observe=["results of every call, element lifetime accounting"])
p("C29", "mapFind returns the mapped value, or the default / nothing if absent",
  "For every std::map and std::unordered_map and every key, mapFind with a default returns the value mapped to the key if present and the default otherwise, and mapFind without a default returns an optional that holds that value exactly when the key is present; the map is not modified.",
  ["inputs"], "all maps, keys and defaults", "The header is included by no source file or test.",
  ["mapOps.hpp"], [("find-or-default", "mapOps.hpp")], observe=["returned values"])
p("C30", "A queue push or air lock load that throws leaves no trace and no stuck waiter",
  "If constructing or copying an element, or allocating room for it, throws inside push, emplace, the priority forms, pushVector, load or try_load, or the function given to popOrCall throws, the exception reaches the caller, the failed call has no effect on the elements, their order, size, emptiness or loaded state, and no lock stays held. "
  "Under any interleaving everything after it goes on as if the call had not been made: the elements of successful pushes still reach waiting consumers, loaders still get through when enough unloads happen, and nothing is leaked.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of small concurrent programs in which insertions fail at any element operation or allocation", "No test throws inside a queue, and the failure matters only in combination with particular other operations before and after it.",
  ["SimpleQueue.hpp", "BlockingQueue.hpp", "BlockingPriorityQueue.hpp", "AirLock.hpp"],
  [("empty flag cleared after the insertion", "BlockingQueue.hpp"), ("priority insertion under the pull lock", "BlockingPriorityQueue.hpp"), ("notification handed on by a failing load", "AirLock.hpp"), ("pushVector rolls back", "SimpleQueue.hpp")],
  [("empty flag, loaded flag", "whether a push has to notify, whether cargo is present", "BlockingQueue.hpp")], ["results of the other operations, completion in a harness-owned schedule, element lifetimes"])
p("C31", "Running out of memory never corrupts a container",
  "If an allocation, or copying an element, fails inside a construction, copy, copy assignment, resize or insertion of a buffer, block container or mapped vector, the exception reaches the caller, nothing is leaked or released twice, and the sources of copies are unchanged. "
  "A buffer, and a block container whose insertion failed, is exactly as before; a block container whose assignment failed holds only old and new values; a mapped vector whose insertion failed keeps its elements and terms, gaining at most the new element and terms that find it (or an overwritten value), and every term still finds its element. "
  "All of them stay usable. Popping, clearing, shrink_to_fit and removing by term or index need no memory and never fail. (Not covered: moving a whole container, and the target of a failed copy assignment of a mapped vector before it is cleared.)",
  ["fault_sequences", "histories"], "all histories in which the k-th allocation of an operation, or every one from the k-th on, fails", "No test lets an allocation fail.",
  ["CircularBuffer.hpp", "StackBuffer.hpp", "StableBlockVector.hpp", "StableBlockDeque.hpp", "MappedVector.hpp", "StringMappedVector.hpp", "DualMappedVector.hpp", "DualStringMappedVector.hpp", "MappedPointerVector.hpp", "DualMappedPointerVector.hpp"],
  [("memory is allocated before the buffer gives up its own", "CircularBuffer.hpp"), ("a block is allocated before indices move to it", "StableBlockVector.hpp"), ("constructors delegate, so that the destructor cleans up after a failure", "StableBlockDeque.hpp"), ("terms are erased in place", "MappedVector.hpp")],
  observe=["contents after the exception", "heap balance at the end of the case"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
