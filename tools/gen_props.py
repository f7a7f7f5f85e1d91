#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
                   observe_at=observe,hook_needed=hook)))

p("C01","Copies of a hash map or hash set never affect each other",
 "After a hash map or hash set is copied, the original and every (transitive) copy behave as fully independent containers: when concurrent tasks each own some of the handles and read, write, remove, clear, iterate and copy them without any locking between tasks, every handle reports exactly the contents, size and iteration that its own operations alone imply. No such use is a data race, and no handle ever sees a partially made change of another one.",
 ["schedules","histories","configurations"],
 "every interleaving (down to single statements) of up to five tasks owning disjoint handles of one copy family; every operation history, hash quality, table size and fork shape",
 "hashmap TestCopy makes one copy, writes one key and never looks at the original again; nothing runs two handles concurrently, clears a copied map, copies a copy, or preempts a write half way.",
 ["hashmap/map.go","hashset/set.go"],
 [("lazy copy-on-write shared by Put, Remove, Clear and Copy","hashmap/map.go: Copy, Put, Remove, Clear, resize")],
 ["Get/Has, Size, Each of every handle after each of its operations and at the end"],
 [("shared table flag","table may be reachable from another handle","hashmap/map.go: Map.readonly")])

p("C02","Every version of a persistent rope is immutable",
 "A version of a persistent rope keeps exactly the elements it had when it was created, whatever insertions, removals, splits, joins, slicings and rebuilds concurrent tasks perform, without locks, to derive further versions from it or from versions sharing structure with it. Each derived version equals what the same edit gives on a plain slice, and neither reusing a buffer passed to an insertion nor modifying a returned slice changes any version. The slice a rope was created from, including spare capacity behind it, is never written.",
 ["schedules","histories","configurations"],
 "every interleaving of tasks reading and deriving versions from a shared pool; every edit history; every split/join threshold and rebalance ratio (re-balancing is applied by a task to versions it has not yet shared as a part of another rope)",
 "prope tests follow a single linear chain of versions, in one goroutine, looking at the newest version only; old versions are never re-read after edits and structure sharing is never exercised concurrently.",
 ["prope/prope.go"],
 [("path copying","prope/prope.go: Insert, Remove, SplitAt, Join"),("in-place rebuild","prope/prope.go: Rebalance, Rebuild, adjust")],
 ["Value, Slice, At, Len of every published version, repeatedly, by every task"],
 [("shared subtrees","nodes reachable from several versions","prope/prope.go: Node")])

p("C03","Snapshot copies and derived sets are independent of their source",
 "A copy of a queue, stack, bidirectional map or 2-D array, a clone of a set, and the result of a non-in-place set operation start with exactly the contents promised and from then on share nothing with their source: when concurrent tasks own and modify different copies without locks, each behaves as if it were the only one. None of these uses is a data race.",
 ["schedules","histories"],
 "every interleaving of tasks owning different copies; every history before and after copying, including copies of copies and of empty or zero-value containers",
 "Only queue, and only single-threaded, has tests that touch a copy; stack, bimap, array2d and set clones are never modified after copying.",
 ["queue/queue.go","stack/stack.go","bimap/bimap.go","array2d/array2d.go","set/set.go"],
 [("eager copying","queue.Copy, stack.Copy, bimap.Copy, array2d.Copy, set.Clone and the non-in-place set operations")],
 ["full contents of every copy after each of its operations"])

p("C04","A lock-protected hash map or set is linearizable, with overlapping readers",
 "When tasks share a hash map, hash set or map-backed set under a readers-writer lock (reads may overlap each other at any point, writes are exclusive), every lookup, size and iteration returns exactly what the writes ordered before it imply: the latest value per key, no removed key, no duplicate, nothing lost, for any key type, hash quality, initial capacity and growth or shrink history. Reads never interfere with each other and never modify the container: overlapping reads are free of data races.",
 ["schedules","histories","configurations"],
 "every schedule of overlapping readers and exclusive writers; every put/overwrite/remove/clear history; every hash function including fully colliding ones; table sizes through growth and shrink cycles",
 "The cross-check tests use one goroutine, 100 keys, one good hash function, compare in one direction only (never noticing a lost key) and never check Size, Clear or collisions.",
 ["hashmap/map.go","hashset/set.go","mapset/set.go"],
 [("linear probing with re-insertion on removal","hashmap/map.go: Put, Get, Remove"),("growth and shrink","hashmap/map.go: resize")],
 ["Get/Has, Size, Each under the read lock"])

p("C05","A lock-protected AVL tree or B-tree is a linearizable ordered map",
 "When tasks share an AVL tree or B-tree under a readers-writer lock (reads may overlap at any point), every lookup and size returns exactly what the writes ordered before it imply, and every iteration yields each live key exactly once, in ascending order of the comparison function. The AVL tree's reported height stays within the AVL bound for its size. Reads never modify the tree: overlapping reads are free of data races.",
 ["schedules","histories","configurations"],
 "every schedule of overlapping readers and exclusive writers; every put/overwrite/remove/re-insert history up to several thousand keys (three B-tree levels); every strict weak ordering",
 "Cross-check tests use 100 random keys in one goroutine, compare in one direction only, never check order, Size, Height, overwrites or a B-tree deeper than two levels.",
 ["avl/avl.go","btree/btree.go"],
 [("rebalancing","avl/avl.go: rebalanceTree, remove"),("split and tombstones","btree/btree.go: insert, split, Remove")],
 ["Get, Size, Each, Height under the read lock"])

p("C06","A lock-protected interval tree answers every overlap query exactly",
 "When tasks share an interval tree under a readers-writer lock (reads may overlap at any point), an overlap query returns exactly the stored intervals that intersect the half-open query range, each once and sorted by start, and lookups, size and iteration match the additions, replacements and removals ordered before them; additions report the conflicting interval and leave it, replacements and removals return the old one. The reported height stays within the AVL bound for the size, and overlapping reads are free of data races. A range whose start exceeds its end is rejected with a panic and leaves the tree as it was.",
 ["schedules","histories","inputs"],
 "every schedule of overlapping queries and exclusive updates; every history of adds, replacements with longer or shorter intervals and removals; integer, float and string bounds",
 "Tests check a few hand-written trees of at most a dozen intervals; pruning bounds after rotations, replacements by shorter intervals and removals of inner nodes are not reached.",
 ["interval/itree.go"],
 [("subtree maximum maintenance","interval/itree.go: updateMax, rebalanceTree, removeThis"),("pruned search","interval/itree.go: overlaps")],
 ["Overlaps, Get, Each, Size, Height under the read lock; results of Add, Put, Remove"],
 [("max","largest upper bound below a node","interval/itree.go: node.max")])

p("C07","All four multimap flavours are linearizable under a lock",
 "When tasks share a multimap of any flavour under a readers-writer lock (reads may overlap at any point), the number of entries, number of distinct keys, per-key counts and value lists, membership and both iterations always agree with each other and with the entries put and removed before: duplicates are kept or merged as the flavour promises, removing takes out at most one matching entry, a key exists only while it has entries, and sorted flavours iterate keys and values in order. Overlapping reads are free of data races.",
 ["schedules","histories"],
 "every schedule of overlapping readers and exclusive writers; every history of puts, duplicate puts, removals of present and absent entries, bulk removals and clears; all four flavours",
 "One scripted sequence of about a dozen operations on three keys per flavour.",
 ["multimap/multimap.go","multimap/map.go","multimap/avl.go","multimap/values.go"],
 [("entry counting","multimap/map.go, multimap/avl.go: Put, Remove, RemoveAll, Clear"),("value containers","multimap/values.go")],
 ["Dimension, Size, Count, Has, Get, Each, EachAssociation under the read lock"])

p("C08","A bidirectional map always stays a bijection",
 "When tasks share a bidirectional map under a readers-writer lock (reads may overlap at any point), the forward and the reverse direction describe the same set of pairs at every moment: each key has one value and each value one key, adding a pair displaces every older pair that uses its key or its value, and removal from either side removes the pair from both. Length, membership, lookups, iteration and copies match the operations ordered before them, and overlapping reads (copying included) are free of data races.",
 ["schedules","histories"],
 "every schedule of overlapping readers and exclusive writers; every history of additions (with key, value and double collisions), removals from both sides and clears; zero-value maps",
 "Two tests of a couple of operations each; a collision is tried once.",
 ["bimap/bimap.go"],
 [("paired index maintenance","bimap/bimap.go: Add, RemoveForward, RemoveReverse, Clear")],
 ["GetForward/GetReverse, ContainsForward/ContainsReverse, Len, Each under the read lock"])

p("C09","A lock-protected trie is a linearizable string map with prefix queries",
 "When tasks share a trie under a readers-writer lock (reads may overlap at any point), lookups, membership and size return exactly what the writes ordered before imply, the longest-prefix query returns the longest live key that is a prefix of the query (or the empty string), and the key listings return exactly the live keys having the given prefix, each once, in lexicographic byte order. Removing an absent key changes nothing, the empty key is never stored, keys may contain any bytes, and overlapping reads are free of data races.",
 ["schedules","histories","inputs"],
 "every schedule of overlapping queries and exclusive updates; every history of puts, overwrites and removals (of absent keys, of prefixes of other keys, of shared branches); arbitrary byte strings",
 "The cross-check uses long random strings that almost never share prefixes, and never checks Size, LongestPrefix, KeysWithPrefix, removal of absent keys or the absence of removed keys.",
 ["trie/trie.go"],
 [("node pruning on removal","trie/trie.go: remove, delete, deleteMinChild"),("prefix search","trie/trie.go: LongestPrefix, KeysWithPrefix, collect")],
 ["Get, Contains, Size, LongestPrefix, Keys, KeysWithPrefix under the read lock"])

p("C10","A rope behaves as one array, also when split among concurrent editors",
 "Shared under a readers-writer lock (reads may overlap at any point), a rope always reports exactly the elements an array would hold after the same insertions (of what was read from the rope itself, too), removals, rebuilds and rebalancings, through every kind of read and for every split/join threshold. After a rope is split, concurrent tasks may edit the parts without any lock: each part behaves as its own array, no part ever sees another's edits, none of it is a data race, and joining the parts gives the concatenation of the edited parts.",
 ["schedules","histories","configurations"],
 "every interleaving of overlapping readers, and of unlocked editors owning different parts; every edit history; every split/join threshold and rebalance ratio",
 "Tests edit one rope in one goroutine with one threshold pair, never edit the two halves of a split and never call Rebuild or Rebalance.",
 ["rope/rope.go"],
 [("leaf capacity clamping","rope/rope.go: New, SplitAt"),("split/merge of leaves","rope/rope.go: adjust, join, Rebuild, Rebalance")],
 ["Value, Slice, At, Len, Each of the rope and of every part"])

p("C11","Queues and stacks deliver every item exactly once and in order",
 "When producer and consumer tasks share a queue (or stack) under a readers-writer lock, every item put in is delivered to exactly one consumer, unless it is still inside or was cleared: in first-in first-out order for the queue, last-in first-out for the stack. Length, emptiness, peeks, bulk reads, iterations and copies by overlapping readers show exactly the undelivered items in order; taking or peeking from an empty queue reports failure (or panics, in the form documented to), an empty stack yields the zero value, and neither changes anything.",
 ["schedules","histories"],
 "every schedule of producers, consumers and overlapping readers; every history of single and bulk enqueue/dequeue, push/pop, clear and copy, across empty and non-empty transitions",
 "Queue tests are single-threaded tables of at most a few items; the stack has a single scripted test.",
 ["queue/queue.go","stack/stack.go","list/list.go"],
 [("linked list with separate length","queue/queue.go: Enqueue, TryDequeue, DequeueAll, Clear"),("resizing array","stack/stack.go: Push, Pop")],
 ["results of Dequeue/TryDequeue/DequeueAll/Pop; Len/Size, Empty, Peek, TryPeek, PeekAll, Each under the read lock"])

p("C12","A shared heap always yields a minimal item and conserves items",
 "When worker tasks share a heap under a readers-writer lock, every pop or peek returns an item such that no item still inside compares less than it, every pushed or initially given item is popped exactly once unless still inside, and the size counts exactly the items inside, whatever the pushes, pops and initial contents. Popping or peeking an empty heap reports failure and changes nothing; overlapping peeks and size reads are free of data races.",
 ["schedules","histories","inputs"],
 "every schedule of workers; every push/pop history and initial slice; every strict weak ordering, with many ties",
 "Tests pop a handful of fixed small arrays with integer orderings; pushes are hardly interleaved with pops and items with equal priority are not told apart.",
 ["heap/heap.go"],
 [("sift up and down","heap/heap.go: up, down, FromSlice, Pop")],
 ["results of Pop and Peek, Size"])

p("C13","Linked and unrolled lists keep order and links under shared editing",
 "When tasks share a linked list or an unrolled list under a readers-writer lock and edit it at arbitrary positions through nodes or cursors, walking forward or backward from any node or cursor visits exactly the elements inserted and not removed, in order, each once, and the reported size and ends agree. A cursor addresses the new element after an insertion and the following element after a removal (or becomes invalid when there is none, from where it can step back to the last element), and cursors of overlapping readers never influence each other.",
 ["schedules","histories","configurations"],
 "every schedule of overlapping cursors and exclusive edits; every history of insertions before/after/at the ends and removals; every block size from one up",
 "The linked list has one example; unrolled list tests run scripted edits on one block size in one goroutine and walk in one direction.",
 ["list/list.go","ulist/ulist.go","ulist/ulist_iter.go"],
 [("link maintenance","list/list.go: InsertAfter, InsertBefore, Remove, Push*Node"),("block overflow and emptying","ulist/ulist.go: AddAfter, AddBefore, Remove, PushFront"),("cursor stepping","ulist/ulist_iter.go: Next, Prev")],
 ["Each/EachReverse/EachNode/EachReverseNode from every node; Begin/End/Next/Prev/Get/IsValid; Size"])

p("C14","The LRU cache honours its bound, its order and its eviction callback",
 "When tasks share the cache under a lock, it never holds more entries than its capacity (zero included), lookups return the latest value of exactly the entries present, and an entry leaves only by removal or, when room is needed, because it is the least recently used one; iteration runs from most to least recently used. The eviction callback is called exactly once, before removal and with the right key and value, for each entry evicted for lack of room; it may itself query the cache. If it panics, the bound, the recency order and every entry not already evicted are preserved, the interrupted insertion has no effect, and the cache stays fully usable.",
 ["schedules","histories","fault_sequences"],
 "every order in which tasks' operations reach the cache; every history of get/put/remove/resize; callbacks that panic, or re-enter the cache with queries (for the victim or others), at any eviction",
 "One example with five keys; no test makes the callback panic or call back, uses capacity zero, or checks recency after lookups of more than one key.",
 ["cache/cache.go","list/list.go"],
 [("table and recency list kept in step","cache/cache.go: Get, Put, Remove, Resize, evict")],
 ["Get, Size, Capacity, Each after every operation; arguments of every callback"])

p("C15","Disjoint regions of a 2-D array can be edited concurrently",
 "In a 2-D array of any width and height, each coordinate names its own cell: concurrent tasks that own disjoint cells, rows or rectangles may read and write them without locks through every accessor (single cells, row and span views, filling), each sees exactly its own writes, none of it is a data race, and afterwards every cell of the array, its printed form and its copies hold exactly the last value its owner wrote; an array nobody writes may be read, printed and copied by any number of tasks at once. Out-of-range accesses panic without writing anything; construction from jagged rows ignores excess values and leaves missing ones zero.",
 ["schedules","inputs","histories"],
 "every interleaving of tasks owning disjoint regions; all widths and heights (wide, tall, single row/column, empty); every history of writes, fills and view writes; coordinate pairs in any corner order",
 "All tests use square arrays, in one goroutine, so that a cell mapping that is only right for squares passes.",
 ["array2d/array2d.go"],
 [("coordinate to index mapping","array2d/array2d.go: Get, Set, Row, RowSpan, Fill"),("bounds checks","array2d/array2d.go")],
 ["Get, Row, RowSpan by the owner; whole array and String at the end"])

p("C16","Set algebra is exact for every backing and leaves operands untouched",
 "Union, intersection, difference, symmetric difference, their in-place and constant-operand variants, and the subset, superset, equality and disjointness tests give the mathematically right answer for any mix of hash-backed and map-backed operands, any iteration order and any hash collisions, also when an operand is the receiver itself. The non-in-place forms and tests, run by overlapping readers on shared operands under a readers-writer lock, never change an operand, are free of data races and return what the writes ordered before imply; a symmetric difference of several sets holds the elements contained in exactly one of them.",
 ["schedules","histories","configurations"],
 "every schedule of overlapping algebra on shared operands and exclusive in-place operations; every backing mix, hash function and map iteration order; aliased operands",
 "Each operation has one example on three-element map-backed sets; hash-backed receivers are intersected once without collisions; predicates, aliasing and collisions are never tested.",
 ["set/set.go","hashset/set.go","mapset/set.go"],
 [("removal while iterating","set/set.go: InPlaceIntersection, InPlaceDifference"),("predicates","set/set.go: IsDisjoint, IsSubset, IsSuperset, Equal")],
 ["contents of every result and operand; every predicate's answer"])

p("C17","Visitors and comparisons may re-enter or abort a read at any point",
 "During any lookup or iteration, a visitor callback may query the same container (including starting nested iterations), and a visitor, comparison, equality or hash function may abort the operation by panicking at any invocation: the nested queries return the exact contents, the visits made before an abort are a correct prefix of the iteration, and after the panic is recovered the container holds exactly what it held, for every task sharing it. Several such reads may overlap in any way.",
 ["fault_sequences","schedules","histories"],
 "every position of an abort or nested query inside every read of every container; every interleaving with overlapping readers; every history of later writes",
 "No test ever panics in a callback or queries a container from inside its own iteration.",
 ["hashmap/map.go","hashset/set.go","avl/avl.go","btree/btree.go","interval/itree.go","multimap/map.go","multimap/avl.go","bimap/bimap.go","rope/rope.go","queue/queue.go","list/list.go","set/set.go","cache/cache.go","mapset/set.go"],
 [("reads without side effects","every Get/Has/Each/Overlaps implementation")],
 ["contents after the recovered panic, results of nested queries, visited prefixes"])

p("C18","A write aborted by a panicking callback is all-or-nothing",
 "If a comparison, equality or hash function supplied by the user panics while an element is inserted into, overwritten in or removed from a hash map, hash set, AVL tree, B-tree, multimap or heap, then after recovery the container is exactly as before the call or exactly as after its completion: no other element is lost, duplicated, misplaced or unreachable, and every later operation behaves accordingly. The same holds if the panic hits a handle of a copied hash map, whose relatives must not notice.",
 ["fault_sequences","histories","configurations","schedules"],
 "every position of the panic among the callback invocations of every single-element write; every state of the container (collision clusters, growth, shrink, rotations, splits)",
 "No test ever panics in a comparison, equality or hash function.",
 ["hashmap/map.go","hashset/set.go","avl/avl.go","btree/btree.go","multimap/map.go","multimap/avl.go","multimap/values.go","heap/heap.go"],
 [("callbacks before mutation","Put, Remove, Push, Pop implementations")],
 ["full contents after the recovered panic and results of all later operations"])

p("C19","Results handed out remain stable and belong to the caller",
 "A collection returned by a read that is not documented to alias the container (key listings, overlap results, value lists, peeked or drained items, set keys and maps, slices of a persistent rope) keeps its contents after the lock is released, whatever concurrent tasks do to the container afterwards, and may be modified by its owner without affecting the container or other readers; neither is a data race.",
 ["schedules","histories"],
 "every interleaving of later writes by other tasks with uses of a previously returned result; every history",
 "Tests look at results at once and never modify the container, or the result, while the other is still in use.",
 ["trie/trie.go","interval/itree.go","multimap/values.go","multimap/map.go","multimap/avl.go","queue/queue.go","set/set.go","prope/prope.go"],
 [("results built freshly","Keys, KeysWithPrefix, Overlaps, Get, EachAssociation, PeekAll, DequeueAll, Keys, Map, Value, Slice")],
 ["retained results re-read after later operations; container contents after a result was modified"])

p("C20","Unrelated containers share nothing",
 "Two containers of any kind that were created separately (and are not copies, splits or versions of one another) have no state in common: tasks that each use only their own container, of the same or of different kinds and element types, need no synchronisation between them. Whatever the interleaving, each container gives exactly the results of its own history, and there is no data race. Nor do they share anything with the arguments they were made from, FromSlice of the heap and New of the mutable rope excepted, which say so: those remain the caller's, unchanged and free to be changed.",
 ["schedules","histories","configurations"],
 "every interleaving, inside operations too, of histories on separate containers; all kinds and element types side by side",
 "Tests use one container at a time from one goroutine; hidden shared buffers, pools or caches would go unnoticed.",
 ["hashmap/map.go","hashset/set.go","mapset/set.go","avl/avl.go","btree/btree.go","interval/itree.go","multimap/map.go","multimap/avl.go","bimap/bimap.go","trie/trie.go","queue/queue.go","stack/stack.go","heap/heap.go","list/list.go","ulist/ulist.go","cache/cache.go","set/set.go","rope/rope.go","prope/prope.go","array2d/array2d.go"],
 [("no package-level mutable state","all packages; rope and prope have configuration variables only")],
 ["results and contents of each container against its own model; data races"])

p("C21","Every operation finishes within its documented number of own steps",
 "Whatever the history that led to the container's state (adversarial insertion and removal orders, drains, writes aborted by callback panics) and whatever other tasks do or wherever they are stalled meanwhile, an operation makes progress within a bound on its own steps: for AVL trees, interval trees, B-trees, AVL-based multimaps (iterating and counting all entries aside), heaps, and ropes kept balanced with Rebalance, a number logarithmic in the number of elements, plus the size of the result (overlap queries: times it); for LRU caches, bidirectional maps, linked and unrolled lists, queues and stacks a constant (where entries are kept in arrays, averaged over the writes that made an array grow or shrink), apart from visiting, copying or clearing a whole container; for tries a number proportional to the key's length (times the alphabet); for hash maps with a good hash function a constant on average over any sequence of insertions, removals, lookups and copies. Rebuild and Rebalance make access to a rope, however degenerate, cost what it does in a newly built rope of the same contents (within a small factor). Copying a hash map takes constant time and allocates nothing in proportion to its size, and a new version of a persistent rope takes O(lg n) time and space.",
 ["histories","schedules","fault_sequences","configurations"],
 "every history, up to thousands of elements, every order of insertion and removal; every schedule",
 "No test measures an operation's cost; a degenerate tree or an eager copy passes all of them.",
 ["avl/avl.go","interval/itree.go","btree/btree.go","heap/heap.go","multimap/avl.go","cache/cache.go","hashmap/map.go","rope/rope.go","prope/prope.go","trie/trie.go","list/list.go","queue/queue.go","stack/stack.go","bimap/bimap.go"],
 [("balanced structure","rotations, splits, rebalancing"),("pruned search","interval/itree.go: overlaps"),("lazy copying","hashmap/map.go: Copy"),("structure sharing","prope/prope.go: Insert, Remove")],
 ["statements executed by the calling task within the call; bytes allocated"])

p("C22","Ordering and hash helpers are pure functions, also in overlapping use",
 "The minimum, maximum, clamping, comparison, equality and less-than helpers and the hash functions depend on nothing but their arguments: called by any number of tasks at once without a lock, interleaved anywhere, and after earlier calls aborted by a panicking less function, they return the right argument or ordering for every type and every strict weak ordering (a clamped value equal to a bound is returned itself), the same hash for equal values throughout, different hashes for different values of a type (but for chance), hashes that spread neighbouring values over the low bits, and they are free of data races.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of overlapping calls; all argument combinations, types and orderings",
 "Examples try a handful of values from one goroutine; no test hashes anything directly.",
 ["generic.go"],
 [("pure functions","generic.go: Max, Min, Clamp, Compare, the *Func variants, hash, Hash*")],
 ["return values, compared across calls and tasks"])

with open("properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("properties.jsonl"): jsonschema.validate(json.loads(l),s)
print(len(P))
