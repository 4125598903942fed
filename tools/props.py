#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = "collections/src/main/java/com/bytefacets/collections/"
T = "collections/src/main/templates/com/bytefacets/collections/"
BH, BKI, SET, MAP = J+"hash/BaseHash.java", T+"hash/BaseKeyIndex.ftl", T+"hash/KeyIndexedSet.ftl", T+"hash/KeyValueIndexedMap.ftl"
HASH = [BH, BKI, SET, MAP]
SIDE, O2M, M2M, MAPPING = J+"bi/Side.java", J+"bi/CompactOneToMany.java", J+"bi/CompactManyToMany.java", J+"bi/Mapping.java"
BI = [O2M, M2M, SIDE, MAPPING]
DEQ, HYD, VEC, ARR = T+"queue/KeyDeque.ftl", T+"queue/KeyHydraDeque.ftl", T+"vector/KeyVector.ftl", T+"arrays/KeyArray.ftl"
CST, CMS = T+"store/KeyChunkStore.ftl", T+"store/KeyChunkMatrixStore.ftl"
BHP, BKH, KVH = J+"heap/BaseHeap.java", T+"heap/BaseKeyHeap.ftl", T+"heap/KeyValueHeap.ftl"
HEAP = [BHP, BKH, KVH]
SORT = T+"sort/KeyValueCompanionSort.ftl"
TYPES = [J+"types/%sType.java" % t for t in "Bool Byte Short Char Int Long Float Double String Generic".split()]
SNOW = J+"id/Snowflake.java"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None, note="", tech="", subj=""):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a), tech, note))

H = ["histories", "inputs", "configurations"]
ALLT = "every key/value type instantiation, initial capacity and load factor"

prop("C01", "Indexed sets and maps hold exactly the keys added and not since removed",
 "After any history of operations, an indexed set or map reports as present exactly the keys that were added (or put) and not since removed or cleared: containsKey, lookupEntry, size and isEmpty agree with a reference set for every present and absent key. Every full enumeration (keys, entries, map values, iterator) yields each present key exactly once and nothing else. remove of a present key returns the entry it held and of an absent key returns -1 and changes nothing.",
 H, "all histories of add/put/remove/removeAt/iterator-removal/reserve/free/clear, over "+ALLT+", including colliding, extreme and null keys and several rehashes",
 "The generated tests drive a few dozen hand-picked keys per type through one or two growth steps; chain surgery, rehash and free-list reuse interact over unbounded histories and key distributions.",
 HASH, [("bucket chains linked through nexts with the bucket number stored negatively at the tail", BKI), ("rehash re-registers each live entry", BKI), ("removal unlinks from head or middle of a chain", BKI)],
 ["containsKey", "lookupEntry", "size", "forEach", "forEachEntry", "iterator", "remove"])
prop("C02", "Indexed maps return the last value put for a key, else default or an error",
 "After any history, get, getOrDefault and getValueAt(entry of key) return the value most recently stored for a present key by put or putValueAt; for an absent key get throws KeyNotFoundException and getOrDefault returns the supplied default. forEachValue yields exactly the multiset of current values.",
 H, "all histories of put/add/putValueAt/remove/clear/growth over "+ALLT,
 "Tests check single puts and lookups on small maps; values live in a separate array that has to track entries through rehash, reuse, iterator removal and copying.",
 [MAP, BKI, BH], [("values array indexed by the key's entry, grown with the key array", MAP)], ["get", "getOrDefault", "getValueAt", "getValueAtOrDefault", "forEachValue"])
prop("C03", "A key's entry is a stable handle while the key stays in the collection",
 "From the call that adds a key until that key is removed or the collection is cleared, its entry never changes, through any growth and any other operation: adding it again returns the same entry, looking it up returns that entry, and the key (and map value) read at that entry are that key (and its current value). Two keys present at the same time never share an entry.",
 H, "all histories over "+ALLT+" with growth between the add and the use of the handle",
 "Tests sample a handle right after allocation; stability has to survive every later rehash and every neighbour's removal.",
 HASH, [("entries are positions in nexts/keys/values that rehash keeps in place", BKI)], ["add", "lookupEntry", "getKeyAt", "getValueAt"])
prop("C04", "Entries are compact: freed entries are reused before new ones are issued",
 "Entries issued by an indexed set or map start at 0 and a fresh entry is issued only when no freed entry is available, and then it is exactly one more than the highest entry issued since construction or the last clear. Consequently every live entry is smaller than the largest number of entries simultaneously in use (present or reserved) since then, and after clear issuing restarts at 0.",
 H, "all histories of add/remove/removeAt/iterator-removal/reserve/free/clear/copyFrom over "+ALLT+" and all load factors in (0,1]",
 "Tests free one or two entries and re-add; leaks of freed entries appear only when reuse interleaves with growth, iterator removal, reservation or clear.",
 HASH, [("free list threaded through nexts", BKI), ("nextUnusedEntry counter", BH)], ["add return value", "remove return value"])
prop("C05", "Reserved entries are withheld from reuse until they are freed",
 "Removing an entry with removeAtAndReserve takes its key out of the collection (absent from lookups, size and enumerations) but leaves the key and value readable at that entry, and the entry is not issued to any key until freeReservedEntry is called for it. Once freed, its key and value read as defaults and the entry is reused like any other freed entry. Other keys are unaffected throughout, also by removeAtAndReserve of an entry that has no key (freed, reserved already, or not yet issued), which does nothing.",
 H, "all histories interleaving reserve/free with adds, removals, growth and copies, over "+ALLT,
 "Tests reserve a single entry in a tiny collection; the interplay with rehash, free-list order and later frees is untested.",
 HASH, [("remove(key,false) unlinks without freeing", BKI), ("freeReservedEntry resets and pushes on the free list", BKI)], ["removeAtAndReserve", "freeReservedEntry", "getKeyAt", "add"])
prop("C06", "Entry iterators visit each entry once, support removal, and fail fast",
 "An iterator over an indexed set or map, new or reused, visits every present entry exactly once and then reports the end; removing the current entry through it removes exactly that key, whose key and value then read as defaults, and does not disturb the rest of the traversal, and removing twice throws IllegalStateException. Reads, value updates, re-adding a present key and removing an absent key do not disturb a running iterator. If the collection has been structurally changed otherwise (key added or removed, reserved, cleared while non-empty, or copied into) since the iterator was created or reset, its next call to next or remove throws ConcurrentModificationException instead of returning data.",
 H, "all histories interleaving one or more iterators with modifications, over "+ALLT,
 "Tests iterate once over a small unmodified collection and remove in one pattern; chain-position bookkeeping (prev/next/isRemoved) fails only for particular bucket shapes and removal patterns.",
 [BH, BKI, SET, MAP, J+"EntryIterator.java"], [("modificationCount compared with the iterator's copy", BH), ("prev/next bookkeeping per bucket", BH)], ["iterator", "EntryIterator.next", "EntryIterator.remove", "EntryIterator.reset"])
prop("C07", "forEach callbacks may remove the element being visited",
 "forEachEntry, forEach (keys) and forEachValue of sets, maps, heaps and associations (of all of an association, of one left or of one right) visit every element present at the start exactly once even when the callback removes the element currently being visited, by key or by entry, for any subset of elements; afterwards exactly the elements not removed remain. A callback may also look up or enumerate; an exception it throws ends the enumeration, reaches the caller and leaves the collection as it is.",
 H, "all contents, bucket shapes and subsets removed during the traversal, over "+ALLT,
 "Tests never modify the collection from inside a callback, although the code promises to allow it.",
 [BH, BKI, MAP, BHP, SIDE], [("next link is read before the callback runs", BH), ("next link is read before the callback runs", SIDE), ("forEachEntry over issued entries", BHP)], ["forEachEntry", "forEach", "forEachValue"])
prop("C08", "copyFrom makes an independent, indistinguishable copy",
 "After target.copyFrom(source), whatever the target held before and whatever the relative capacities and load factors, the target answers every query as the source does (same keys, entries, values, reserved entries, capacity) and from then on responds to any identical sequence of operations with identical results, including the entries issued. The source is unchanged by the copy and later changes to either collection are never visible in the other; the load factor and the hash and equality functions set on the source carry over.",
 H, "all pairs of histories (one producing the source, one the target), and all histories after the copy, over "+ALLT,
 "Tests copy between two or three fixed shapes and only compare contents right after the copy.",
 [BH, BKI, SET, MAP], [("array-wise copy of heads/nexts/keys/values and of the free list", BH), ("capacity and threshold recomputed", BKI)], ["copyFrom", "every read and write on both collections afterwards"])
prop("C09", "Custom hash and equality functions define key identity",
 "For Float, Double, String and Generic keys, with any consistent pair of hash and equality functions set while the collection is empty, the collection behaves as a set or map over the equivalence classes they define: lookup, add, put and remove of any representative act on the class's single element. Hash quality (constant, negative or colliding codes) never affects results. A call during which the equality function (or, for a key not present, the hash function) throws fails with that exception and changes nothing. Setting either function on a non-empty collection throws IllegalStateException and changes nothing, and a null function is rejected.",
 H, "all consistent (hash, equality) pairs from the tested families and all histories over them; set and map types with Float/Double/String/Generic keys",
 "Tests set one function pair on one collection; agreement over equivalence classes has to hold for arbitrary functions, rehashes and removals.",
 [BKI, SET, MAP], [("computeHead uses hashFunc masked to non-negative", BKI), ("equalFunc in every chain walk", BKI)], ["setHashMethod", "setEqMethod", "add", "lookupEntry", "remove"])
prop("C10", "New keys start with default values and freed slots hold no stale data",
 "In any history, a key newly added to a map without a value (even to an entry that earlier held another key or that was written to while unused) has the value type's default, and adding a present key leaves its value alone. Reading the key or value at an entry that was freed by any kind of removal, cleared, or not yet issued gives the type's default; getValueAtOrDefault with an entry outside the map's storage gives the supplied default, while getKeyAt, getValueAt and removeAt refuse it with IndexOutOfBoundsException.",
 H, "all histories of add/put/remove/removeAt/iterator-removal/reserve/free/clear/copyFrom/growth, over "+ALLT,
 "Tests probe one freed slot; stale data survives only specific sequences (partial clears, reuse after iterator removal, copies into larger targets).",
 HASH, [("add resets the value of a new entry", MAP), ("freeReservedEntry and clear reset keys and values", BKI)], ["getKeyAt", "getValueAt", "getValueAtOrDefault", "add"])
prop("C11", "Collections drop references to objects they no longer hold",
 "For String and Generic elements, once an object has been removed, popped, freed, overwritten or cleared from an indexed set or map, deque, hydra deque, vector or heap, it is no longer reachable from that collection, in any history. Objects still held (including those at reserved entries) remain.",
 H, "all histories over all reference-typed instantiations of those collections",
 "Unit tests do not look at reachability; a missed slot reset leaks memory silently and only along certain paths.",
 [BH, BKI, MAP, DEQ, HYD, VEC, BKH, KVH], [("slots reset to DEFAULT on removal and clear", BKI), ("clear fills the used ranges", DEQ)], ["object graph reachable from the collection"])
prop("C12", "CompactOneToMany is exactly the set of associations put and not removed",
 "After any history of put, remove, removeAt, reservation and freeing, contains, size and forEachEntry report exactly the (left,right) pairs put and not since removed, for any non-negative lefts and any int rights. forEachEntry visits each association once even when its callback removes the one being visited. For every left, present or never seen, withLeft enumerates exactly the rights and the entries associated with it, each once, and count (when enabled) is their number; with counts disabled count throws IllegalStateException. These enumerations too may remove the association being visited, and a Mapping kept across modifications answers for the state at the time of the call. A put with a negative left is refused with IndexOutOfBoundsException and leaves nothing behind.",
 H, "all histories, all initial capacities including ones exceeded in any order, counts enabled or disabled",
 "Tests use a handful of small keys inside the initial capacity; the linked lists through growable arrays break for particular growth orders and removal positions.",
 BI, [("per-left doubly linked list of entries", SIDE), ("hash set of packed pairs", O2M)], ["contains", "size", "withLeft(..).forEachValue/forEachEntry/count/iterators", "forEachEntry"])
prop("C13", "CompactManyToMany answers consistently from both sides",
 "After any history, withRight enumerates for every right, present or never seen, exactly the lefts and the entries associated with it, each once, with the right count, and withLeft does the same for lefts: (l,r) is seen from the left exactly when it is seen from the right and when contains(l,r) is true. An enumeration of each side, and an entry and a value iterator of one Mapping, can be under way at once without affecting each other; an enumeration may remove the association it is visiting or be cut short by an exception, and a Mapping kept across modifications answers for the state at the time of the call. A put with a negative key on either side is refused with IndexOutOfBoundsException and is seen from neither.",
 H, "all histories over non-negative lefts and rights, all initial capacities, counts enabled or disabled",
 "Tests look at a few associations per side; both sides hold separate linked lists which must be updated in step through growth and removals.",
 BI, [("second Side maintained by insertRight/removeRight", M2M)], ["withLeft", "withRight", "contains"])
prop("C14", "Association entries are stable, reusable and reservable handles",
 "The entry returned by put for an association never changes while it exists (put again and lookupEntry return it, getLeftAt/getRightAt give its pair), is never shared by two live associations, and is reused before new entries are issued once freed. remove and removeAt return the entry and delete exactly that association, removing an absent pair returns -1, removing or reserving at an inactive entry changes nothing; a reserved entry keeps its pair readable and is not reissued until freed.",
 H, "all histories of put/remove/removeAt/reserve/free on one-to-many and many-to-many collections",
 "Tests reserve or remove a single association; handle reuse interleaved with list surgery on both sides is not explored.",
 BI, [("entries of the packed-pair index", O2M)], ["put", "lookupEntry", "getLeftAt", "getRightAt", "remove", "removeAt", "removeAtAndReserve", "freeReservedEntry"])
prop("C15", "Deque behaves as a double-ended queue",
 "For any element type, initial capacity of at least 1 and history, a Deque behaves exactly like an unbounded sequence: addFirst/addLast, removeFirst/removeLast, peekFirst/peekLast, size, isEmpty, clear and forEach (head to tail) agree with a reference sequence. Removing or peeking on an empty deque throws NoSuchElementException and changes nothing.",
 H, "all operation histories, element types, initial capacities; wrap-around and growth at every head/tail offset",
 "Tests never use addFirst with wrap-around growth combinations systematically; correctness depends on the offset at which the ring grows.",
 [DEQ], [("ring buffer with head/tail, unrolled on growth", DEQ)], ["all public Deque methods"])
prop("C16", "HydraDeque keeps independent deques per list id",
 "For any history over any list ids, each list of a HydraDeque behaves exactly like its own deque: operations on one list never change the contents, order or size of another, total size is the sum of the sizes, and ids never used are empty. Removing from an empty, unknown or negative list throws NoSuchElementException and changes nothing; clear empties all lists, after which the collection behaves as new.",
 H, "all histories over many list ids (dense, sparse, beyond the initial number), element types and capacities",
 "Tests drive one list at a time; lists share one node pool whose links break only under particular interleavings of removals from both ends of several lists.",
 [HYD], [("doubly linked lists over shared nexts/prevs arrays", HYD)], ["addFirst", "addLast", "removeFirst", "removeLast", "size", "iterator", "clear"])
prop("C17", "HydraDeque iterators give each list in order, forward and in reverse",
 "In any reachable state, iterator(id) yields the list head to tail and reverseIterator(id) tail to head, hasNext is accurate, next past the end throws InvalidEntryException and the iterator's forEach consumes exactly what remains in order. Passing an iterator in to be reused for any list gives the same result as a new one, and an unknown id gives an empty iteration.",
 H, "all reachable states, list ids and iterator reuse patterns",
 "Tests iterate freshly built lists only; back links in particular are exercised by few removal patterns.",
 [HYD, T+"functional/KeyIterator.ftl"], [("ForwardIterator/ReverseIterator over nexts/prevs", HYD)], ["iterator", "reverseIterator", "hasNext", "next", "forEach"])
prop("C18", "HydraDeque entries are unique while live, reused and bounded",
 "Entries returned by addFirst and addLast are distinct among elements currently held, in any history and across lists; an entry is issued beyond those used before only when every entry issued so far is occupied. Thus entries stay below the peak number of elements held at once, and after clear issuing starts again from 0.",
 H, "all histories over several lists including clear and refill cycles",
 "Tests ignore returned entries; a leak in the free list only shows as growth over many remove/add or clear cycles.",
 [HYD], [("free list encoded as -entry-2 in nexts", HYD)], ["addFirst/addLast return value"])
prop("C19", "Vector preserves appended values in order through growth",
 "For any history of append, ensureSize and clear, a Vector's size is the number of appends since construction or the last clear, valueAt(i) is the i-th of them for every i below size, and forEach yields them in order; ensureSize never changes contents.",
 H, "all histories, element types and initial capacities of at least 1",
 "Vector has no direct unit tests at this commit.",
 [VEC, ARR], [("array grown by ensureEntry", VEC)], ["append", "valueAt", "forEach", "size", "isEmpty", "clear", "ensureSize"])
prop("C20", "Array helpers copy, grow and fill exactly as documented",
 "For every element type and input array: create gives an array of the given size filled with the default or given value; fill changes exactly the given range; resize and copyOf keep the common prefix and fill the rest with the type's or given default; ensureSize/ensureEntry return the same array when it is already large enough and otherwise a copy that is large enough, keeps all elements, fills new ones with the default or given value, and is at least doubled. For generic arrays the runtime component type of the given array is kept.",
 ["inputs"], "all arrays, sizes, offsets and fill values within memory, including empty arrays; all 10 element types",
 "Tests try one small array per type; offsets, growth factors and default filling depend on the size relations.",
 [ARR], [("grow doubles from max(1,length)", ARR), ("copyOf fills the tail", ARR)], ["returned arrays", "input arrays"])
prop("C21", "ChunkStore reads back the last value set at each index",
 "For any chunk size, initial size and history of sets at any non-negative indexes in any order, get returns the value last set at that index, and the type's default for indexes never set, including any beyond the current capacity. Capacity never shrinks and always exceeds every index that has been set; a negative index is rejected with IndexOutOfBoundsException.",
 H, "all chunk sizes (power of two or not) and initial sizes, all index/value histories within memory, all element types",
 "Tests use one chunk size; index arithmetic (mask, shift) must be consistent for every configuration.",
 [CST], [("offset = index & chunkMask, chunk = index >> shift", CST)], ["getX", "setX", "getCapacity"])
prop("C22", "ChunkMatrixStore keeps every (row, field) cell separate",
 "For any chunk size, initial size, number of fields and history of sets, get(row, field) returns the value last set at exactly that cell, and the type's default for cells never set, including rows beyond capacity. A field outside [0, number of fields) is rejected with RangeCheckException on get and set, a negative row with IndexOutOfBoundsException on get, and a row too large to be addressed is rejected on set rather than written elsewhere; capacity is at least the initial size and exceeds every row set.",
 H, "all configurations and histories within memory, including rows that straddle chunks and rows near integer limits",
 "Tests use aligned configurations; rows straddle chunks when the number of fields does not divide the chunk size, and large rows overflow int arithmetic.",
 [CMS, J+"exception/RangeCheckException.java", J+"exception/InitializationException.java"], [("absoluteIx = row*numFields + field split by mask and shift", CMS)], ["getX", "setX", "getCapacity"])
prop("C23", "A heap's peek is always a minimum under its comparator",
 "After any history of insert, removeAt, resetKey, setComparator and clear, peek returns an active entry whose key no other active key precedes under the current comparator, so repeatedly peeking and removing yields all keys in comparator order. size, isEmpty, containsKey and getFirstEntry agree with the multiset of active keys; peek on an empty heap throws.",
 H, "all histories, all 9 key types and 90 key/value pairs, built-in and custom comparators, duplicates and extreme keys",
 "Tests drain a heap of ten keys; sift-up/down errors show only for particular shapes after removals from the middle and key resets.",
 HEAP, [("binary heap of entries with an inverse index; filterUp/filterDown", BKH)], ["peek", "insert", "removeAt", "resetKey", "containsKey", "getFirstEntry", "getSize"])
prop("C24", "A heap entry is a stable handle to its key and value",
 "From insert until its removal or clear, an entry always gives its key (as last reset) and its value (as last set), whatever happens to other entries, growth or comparator changes; removeAt(entry) removes exactly that element and resetKey(entry, k) changes exactly that key. Active entries are distinct, and a fresh entry is issued only when no freed entry is available, so entries stay below the peak number of active elements since the last clear.",
 H, "all histories, key/value types and initial capacities",
 "Tests check handles right after insertion; the inverse index must follow every swap in every later operation.",
 HEAP, [("inverse maps entry to tree position; freed entries kept behind size in tree", BKH)], ["insert", "getKeyAt", "getValueAt", "setValueAt", "removeAt", "resetKey"])
prop("C25", "A heap knows exactly which entries are active",
 "In any reachable state isValidEntry is true for exactly the active entries among all ints, forEachEntry visits exactly the active entries, each once, and removeAt and resetKey of an entry that is not active throw (RangeCheckException outside the heap's capacity, InvalidEntryException inside) and changes nothing.",
 H, "all histories and all int entries: freed, never issued, issued before a clear, negative, beyond capacity",
 "Tests probe one invalid entry on an empty heap; never-issued and freed entries in heaps of other shapes are not probed.",
 HEAP, [("isValidEntry checks inverse against size", BHP), ("range and validity check in removeAt", BKH)], ["isValidEntry", "forEachEntry", "removeAt"])
prop("C26", "Changing a heap's comparator re-orders it without losing elements",
 "setComparator at any point of any history keeps exactly the same active entries, keys and values and makes peek and all later operations follow the new comparator. A null comparator is rejected with NullPointerException and changes nothing; getComparator returns the comparator in force.",
 H, "all heap states and comparator pairs (ascending, descending, absolute, custom)",
 "Tests switch comparators once on a ten-element heap built in one order.",
 [BKH], [("rebuild by sifting up each position", BKH)], ["setComparator", "getComparator", "peek", "removeAt"])
prop("C27", "Heap defaults apply to every inactive slot, and clear resets the heap",
 "After any history, getKeyAt and getValueAt for any inactive entry within capacity give the heap's default key and default value (as set by setDefaultKey/setDefaultValue, else the types' defaults), an element inserted without a value has the default value, and clear leaves the heap empty with all slots at defaults and entry issuing restarted at 0. Setting a default on a non-empty heap throws UnsupportedOperationException and changes nothing; getValueAtOrDefault outside the storage gives the supplied default.",
 H, "all histories incl. clear with freed entries present, growth after changing defaults, all key/value types",
 "Tests clear a heap with no freed entries and read a few slots.",
 HEAP, [("slots reset on removeAt/clear/grow", BKH), ("values reset likewise", KVH)], ["getKeyAt", "getValueAt", "getValueAtOrDefault", "setDefaultKey", "setDefaultValue", "clear"])
prop("C28", "Companion sort sorts the range and keeps every key/value pair together",
 "For any primary and companion arrays, offset, length and comparator (a total preorder), after sort the given range of the primary array is in comparator order, the multiset of (primary, companion) pairs in the range is unchanged, and nothing outside the range is changed in either array. No order of the keys, however unfavourable, exhausts the stack. A negative offset or length, or a range past the end of either array, is rejected with IllegalArgumentException and changes nothing.",
 ["inputs"], "all arrays, ranges and comparators; all 90 type pairs; duplicates, presorted, reversed and adversarial patterns at all size regimes",
 "Tests sort a fixed small array per type; partition and pivot selection change at lengths 7 and 40 and misbehave only for particular duplicate patterns.",
 [SORT], [("insertion sort under 7, median of 3/9 quicksort above, paired swaps", SORT)], ["array contents after sort"])
prop("C29", "Built-in comparators are total orders in the documented direction",
 "Every built-in comparator is a total preorder over the whole value range of its type (antisymmetric, transitive, reflexive, with ties exactly where documented), including extreme values, NaN, infinities and null: Asc is the type's natural order (true before false for booleans, nulls last for objects), Desc its exact reverse, AbsAsc/AbsDesc order by true magnitude, and the insensitive string comparators ignore case. comparatorFor returns the comparator named by the method.",
 ["inputs"], "all pairs and triples of values of each type; exhaustive over byte pairs, boundary-biased otherwise",
 "Tests compare a few small numbers; overflow, extremes, NaN and null only show on inputs tests do not sample.",
 TYPES, [("Asc/Desc/AbsAsc/AbsDesc lambdas", TYPES[4]), ("nullableCompare", TYPES[8])], ["*Type.Asc/Desc/AbsAsc/AbsDesc.compare", "comparatorFor"])
prop("C30", "Built-in predicates agree with the type's relational semantics",
 "For every type and all values, EQ, NEQ, LT, LTE, GT and GTE obtained from predicateFor or the constants give exactly the result of the Java relation on those values (for strings, of null-safe equality and of the type's ascending comparator), NEQ is the negation of EQ, and an unsupported predicate method is refused.",
 ["inputs"], "all value pairs of each type, including extremes, NaN, signed zero and null",
 "Tests check a couple of pairs per predicate.",
 TYPES, [("IS_* lambdas and predicateFor switch", TYPES[4])], ["predicateFor(..).test", "IS_*"])
prop("C31", "Binary encoding matches the stated byte order and round-trips every value",
 "For every value of every fixed-width type and every position, writeLE/writeBE store exactly the value's little-/big-endian bytes (raw IEEE bits for floats) in exactly the width of the type, change no other byte and return the position after the last byte; readLE/readBE decode any bytes as that byte order does, so reading what was written gives back the identical value.",
 ["inputs"], "all values and positions of Bool/Byte/Short/Char/Int/Long/Float/Double; exhaustive for 8- and 16-bit types; arbitrary byte arrays for reads",
 "Tests round-trip a few values; sign extension and byte-position errors show only for particular bytes.",
 TYPES[:8], [("shift-and-mask encoders", TYPES[5])], ["writeLE", "writeBE", "readLE", "readBE"])
prop("C32", "Conversions give the Java value of their input or refuse it",
 "For every type, convert maps null to the type's default, numbers by Java narrowing/widening, strings by the type's own parser, booleans to 1/0 ('t'/'f' for char) and its own boxed type to itself, and throws IllegalArgumentException (NumberFormatException for unparsable text) for anything else. unbox(box(v)) is v and unbox(null) the default; parseString of a value's text gives that value back; castToInt and castTo<Type> are the Java casts (castToInt of a text is the decimal int it spells, or NumberFormatException).",
 ["inputs"], "all values of the supported input classes for each of the 10 types",
 "Tests convert one example per source class; truncation and sign behaviour depend on the value.",
 TYPES, [("convert's class dispatch", TYPES[4])], ["convert", "box", "unbox", "parseString", "castTo*"])
prop("C33", "Dates and times pack to yyyyMMdd / HHmmss ints and back losslessly",
 "For every date in years 0-9999 fromLocalDate gives the decimal number yyyyMMdd, toLocalDate inverts it, packed dates compare in date order, convert agrees, and fromSqlDate gives the same number for the same calendar day; for every second of the day fromLocalTime gives HHmmss and toLocalTime inverts it. A number that is not a valid date or time is refused with an exception.",
 ["inputs"], "all dates 0000-01-01..9999-12-31 and all times of day (exhaustive), arbitrary ints for rejection",
 "Tests convert a few dates.",
 [TYPES[4]], [("decimal packing arithmetic", TYPES[4])], ["IntType.fromLocalDate/toLocalDate/fromLocalTime/toLocalTime/fromSqlDate/convert/toYYYMMDD/toHHMMSS"])
prop("C34", "Pack/unpack and bit-flag helpers are exact inverses on all inputs",
 "For all ints, shorts and bytes, packing puts the first argument in the high half and the second in the low half without either disturbing the other, and unpacking either half gives back exactly the value packed. enableBits sets exactly the given bits and disableBits clears exactly the given bits for byte, short, int and long.",
 ["inputs"], "all argument combinations; exhaustive for byte pairs, boundary-biased for wider types",
 "Tests use few values; sign extension affects only negative low halves.",
 [J+"types/Pack.java", TYPES[1], TYPES[2], TYPES[4], TYPES[5]], [("shift and mask packing", J+"types/Pack.java")], ["Pack.*", "enableBits", "disableBits"])
prop("C35", "Default equality is an equivalence consistent with the default hash",
 "For each type the default equality is reflexive (NaN excepted), symmetric and transitive and coincides with the language's == (equals for objects, null-safe), DoubleType's epsilon equality is symmetric and accepts exactly differences under 1e-10, and any two equal values, signed zeros and null included, are the same key to every indexed set. Hash codes are deterministic and depend only on the value.",
 ["inputs"], "all value pairs and triples of each type",
 "Tests do not relate equality and hashing.",
 TYPES+[BKI], [("EqImpl/HashImpl", TYPES[4])], ["EqImpl.areEqual", "HashImpl.code", "IndexedSet.add of equal values"])
prop("C36", "Snowflake ids are unique and strictly increasing under any clock behaviour",
 "Whatever values the clock returns (standing still, jumping forward, running backwards between or within calls, or throwing), every id a generator returns is greater than every id it returned before. A call made while the clock is behind the last issued timestamp throws IllegalStateException instead of issuing an id, a burst of more than 4096 ids in one millisecond waits for the clock to pass that millisecond, and generation resumes once the clock recovers.",
 ["histories", "inputs", "fault_sequences"], "all clock scripts within the 41-bit timestamp range and all numbers of calls, all node ids",
 "There are no Snowflake tests; uniqueness is a property over the whole history of clock readings.",
 [SNOW], [("last timestamp and 12-bit sequence", SNOW), ("waitNextMillis on sequence overflow", SNOW)], ["nextId"])
prop("C37", "Snowflake ids decode to the timestamp, node and sequence they were made from",
 "For every generated id, parse returns a timestamp that the clock reported during that call, the generator's node id, which is the same for all its ids, lies in 0-1023 and is the low ten bits of the node name's hash code, and a sequence in 0-4095 that starts at 0 in each new millisecond and increases by one within it. Ids are positive and parse is the exact inverse of the bit layout for every non-negative id.",
 ["inputs", "histories"], "all timestamps within 41 bits of the epoch, all node names, all call histories",
 "There are no Snowflake tests.",
 [SNOW], [("bit layout shifts and masks", SNOW)], ["nextId", "parse"])
prop("C38", "Snowflake generators are safe under concurrent use",
 "When any number of threads call nextId on one generator concurrently, under any interleaving, all ids returned are distinct, each thread sees its own ids strictly increase, and no call fails while the clock never runs backwards.",
 ["schedules", "histories"], "all interleavings of concurrent nextId calls, with the clock standing still, advancing or overflowing the sequence",
 "There are no concurrent tests.",
 [SNOW], [("nextId is synchronized", SNOW)], ["nextId from several threads"])
prop("C39", "Capacity arithmetic and growth keep collections large enough",
 "nextPowerOf2(v) is the smallest power of two not below v for every v in 1..2^30, and calculateNewCapacity doubles up to the 2^29 limit and never past it, refusing with ResizeException when the limit and threshold are both exhausted and for capacities whose double is not a larger int (-2^30..0, 2^30 and up). In every history an indexed set's, map's or heap's capacity is at least the requested one, exceeds every issued entry and never shrinks except by copying, and no operation fails for lack of room.",
 H, "all ints in range; all histories over capacities and load factors",
 "Tests evaluate a few sizes.",
 [J+"NumUtils.java", J+"CapacityCalculator.java", BH, BHP], [("shift by leading zeros", J+"NumUtils.java"), ("doubling with a cap", J+"CapacityCalculator.java")], ["NumUtils.nextPowerOf2", "CapacityCalculator.calculateNewCapacity", "capacity()/getCapacity()"])
prop("C40", "Constructors reject invalid configurations and accept all valid ones",
 "Indexed sets and maps reject with IllegalArgumentException an initial capacity that is not positive or above 2^29 and a load factor outside (0,1] or NaN; Deque, HydraDeque and Vector reject an initial capacity below 1 with IllegalArgumentException; ChunkMatrixStore rejects an initial size or field count below 1 and a chunk size below 2 with InitializationException; a Snowflake rejects a node id outside 0-1023 with IllegalArgumentException. Every other configuration within memory yields an empty, immediately usable collection.",
 ["inputs", "configurations"], "all constructor arguments, for every type instantiation",
 "Tests construct with one or two configurations.",
 [BH, DEQ, HYD, VEC, CMS, BHP, SNOW], [("argument checks in constructors", BH)], ["constructors"])
prop("C41", "Collections composed through entries stay consistent with each other",
 "Entries can be used as foreign keys: when sets, maps, many-to-many indexes, heaps, deques, per-list queues and stores refer to each other by entry (as in an order book: orders with terms, timeouts, queues and fields), then after any history in which whatever refers to an entry is removed before the entry is freed, or while it is reserved, every reference resolves to the element it was made for, nothing made for a dropped element shows up under the element that reuses its entry, and the timeouts expire in order and exactly once.",
 H, "all histories of adding, tagging, rescheduling, queueing, expiring and dropping over a composition of eight collections",
 "The examples show a single pass over such a composition; reuse of entries across collections is a matter of long histories.",
 HASH+BI+HEAP+[DEQ,HYD,CST,CMS], [("dense reusable entries as handles", BH), ("associations keyed by entries", M2M), ("heap entries as handles", BHP)], ["lookups through entries across collections"])
prop("C42", "Separate instances do not affect each other",
 "Operations on one instance of a collection (or Snowflake), and the static helpers of types, arrays and sorting, have no effect on any other: a history of calls on one instance gives the same results when it runs alone, when its calls alternate with those of histories on other instances of the same or other classes in the same or another thread, and when these run at once in different threads.",
 ["histories", "schedules"], "all pairs and triples of histories over every collection class, all interleavings of their calls, including calls made from inside callbacks and static helpers called by several threads",
 "Tests work on one instance at a time; shared state (a static buffer, a shared iterator) is invisible to them.",
 HASH+BI+HEAP+[DEQ,HYD,VEC,ARR,CST,CMS,SORT,SNOW], [("all state in instance fields", BH), ("iterator state per call", SIDE)], ["results of every public operation"], tech="metamorphic property-based testing: the same generated history alone, in turns and at once with others must give the same trace")

prop("C43", "Memory stays proportional to the most a collection ever held",
 "Freed storage is used again: however long the history of adding, removing, clearing, copying on and querying (for anything, present or not), the arrays of a set, map, deque, hydra deque, vector, heap, bidirectional collection or store together stay within a small constant factor of what the most elements held at once (or the requested capacity, the largest id, the load factor) need, new arrays are allocated only a logarithmic number of times, and a collection of primitives holds no object per element.",
 ["histories", "configurations"], "all histories, of any length, over a bounded population, for every class and element type, load factor and initial capacity",
 "Tests add a handful of elements once; a slot leaked per removal, or growth that is not needed, shows only over long churn.",
 HASH+BI+HEAP+[DEQ,HYD,VEC,CST,CMS], [("free lists of entries", BH), ("doubling growth", ARR), ("free list of the shared storage", HYD), ("free entries kept behind the tree", BKH)], ["array lengths and objects reachable from the collection"], tech="stateful property-based testing: generated churn histories, the sizes of reachable arrays against a bound from the model's peak")
prop("C44", "Heap operations cost logarithmic and hashed operations constant work",
 "In a heap of n elements insert makes at most 2(log2 n + 3) comparisons, removeAt and resetKey at most 6(log2 n + 3), setComparator O(n log n) and looking at entries none, whatever the order of keys and the history. Under a hash function that spreads keys evenly, lookups, additions and removals of an indexed set or map (growth included) make on average at most 4 equality and 10 hash calls at any load factor of at least one half. Default hash functions give distinct keys mostly distinct codes.",
 ["histories", "inputs"], "all histories, key orders and comparators; all evenly spread hash functions",
 "Tests check results, not work; a heap that re-sifts everything or a table that stops growing gives right answers slowly.",
 [BH, BKI, BHP, BKH]+TYPES, [("sift along one path", BKH), ("chains bounded by the load factor", BKI), ("HashImpl", TYPES[5])], ["calls of the comparator, hash and equality functions"], tech="stateful property-based testing: generated histories with instrumented functions, call counts against a bound")
prop("C45", "Queries change nothing, so any number of threads can make them at once",
 "Lookups, gets, reads at entries, peeks, size, capacity and validity queries, enumerations and new iterators do not change a collection: an answer does not depend on which queries were made before, after or within it, and every later operation gives what it would have given had nothing been asked. While nothing modifies a set, map, deque, hydra deque, vector, heap, store or bidirectional collection, any number of threads get the answers that one thread gets. (An iterator, and the Mapping that a bidirectional collection reuses, serve one thread at a time.)",
 ["histories", "schedules"], "all histories, all sequences of queries at any point of them, all interleavings of queries by several threads, for every collection class and element type",
 "Tests ask one thing at a time in one thread; a remembered lookup or a cursor kept in the collection gives right answers there.",
 HASH+BI+HEAP+[DEQ,HYD,VEC,CST,CMS,SNOW], [("queries read fields only", BKI), ("iterators with state of their own", BH), ("enumeration by local variables", BHP)], ["every query"], tech="metamorphic property-based testing: a queried collection against an unqueried twin, and concurrent answers against sequential ones")

prop("C46", "A call that fails changes nothing",
 "A call that ends in an exception leaves everything as it was: the collection and its iterators answer all later queries and calls as if the call had not been made. This holds for whatever the library refuses (an entry, index, row or field outside the storage, an unknown, empty or negative list, a negative association key, an absent key, an inactive heap entry, a setter that needs an empty collection, an iterator past its end, after an outside change or after its removal was made, a clock behind the last id) and for failures in the caller's own code: hash, equality and compareTo of the key given, the comparator during insert and resetKey, a consumer in an enumeration, the clock of an id generator, also while it waits for the next millisecond. Not claimed are a comparator that fails in removeAt or setComparator, functions that fail for keys already stored while a table grows, and what a consumer changed before it failed.",
 ["inputs", "histories", "fault_sequences"], "all histories, all failing calls at any point of them, for every collection class and element type, the bidirectional collections and Snowflake",
 "Tests expect the exception and stop there, or look at the size; damage shows several calls later.",
 HASH+BI+HEAP+[DEQ,HYD,VEC,CST,CMS,SNOW], [("compare before changing", BKH), ("checks before updates", BI[0]), ("state set after the clock answered", SNOW)], ["every call that can throw"], tech="metamorphic property-based testing with injected failures: a collection on which calls failed against a twin without them")

prop("C47", "Every operation costs amortised constant work",
 "Apart from the comparisons of a heap and the n log n of a sort, no operation's cost grows with the size of the collection: n operations of any kinds in any order on a set, map, deque, hydra deque, vector, store or bidirectional collection take in total at most a constant times n steps (loop rounds, calls, array cells allocated or copied), plus a constant times the capacity for a constructor, clear or copyFrom and a constant times the new capacity (or the largest id, row or index needed) for growth; growth is geometric, so it is paid for by the additions. Iteration and enumeration cost a constant times the capacity of what they pass over (per key of a bidirectional collection: its associations; per list of a hydra deque: its values). Heap operations cost log n. Chunked stores grow without copying values. Companion sorts take O(len log len) on random, sorted, reversed, nearly sorted and two-run data with few or many equal keys. (Given hash codes that are evenly spread.)",
 ["histories", "inputs"], "all histories, sizes, capacities and load factors, for every collection class and element type",
 "A scan of a list for the entry to unlink, growth by a constant, an O(n) count or a pivot at the edge give right answers in small tests; only work measured over many elements tells.",
 HASH+BI+HEAP+[DEQ,HYD,VEC,ARR,CST,CMS,SORT], [("geometric growth", ARR), ("chains bounded by the load factor", BKI), ("doubly linked lists", SIDE), ("shared linked storage", HYD), ("pseudo-median pivot", SORT), ("chunk tables", CST)], ["loop rounds, calls and array cells counted by bytecode instrumentation"], tech="stateful property-based testing: generated histories over instrumented bytecode, counted work against a bound")

prop("C48", "A refusal names what was refused",
 "Whatever the library refuses, it refuses with the documented kind of exception, whose message names the offending value: get of an absent key the key (KeyNotFoundException), constructors the invalid capacity, load factor, size or field count and for stores the least one that is valid, a heap's removeAt and resetKey the entry and the heap's size (InvalidEntryException) or, outside the storage, the entry and its limits (RangeCheckException), matrix stores the field and its limits or the row, setters that need an empty collection its size and the rejected default, a hydra deque the empty list, a bidirectional collection the negative key, a companion sort the offset, the length and the array's length, convert the value, its class and the type it cannot become. RangeCheckException.assertWithinRange and InitializationException.assertMinimum throw exactly for values outside the limits and name field, limits and value; the other exception factories name what they are given. A number in a message is the one passed, not another that takes its place.",
 ["inputs", "histories"], "all refused arguments, after any history, for every class and element type; all limits and values of the checks",
 "Tests expect an exception's class for one or two values; what it says, and checks at extreme limits, are not looked at.",
 HASH+BI+HEAP+[DEQ,HYD,VEC,CMS,SORT]+TYPES+[J+"exception/"+x+"Exception.java" for x in "RangeCheck Initialization InvalidEntry KeyNotFound Resize".split()], [("messages formatted from the arguments", J+"exception/RangeCheckException.java"), ("validateListAndGetFirstEntry", HYD), ("inactive entries", BKH)], ["class and message of the exception"], tech="property-based testing: generated calls that must be refused, the message searched for the values that were passed")

prop("C49", "Sizing arguments are only hints",
 "The initial capacity, load factor, initial numbers of lists, lefts, rights or rows and the chunk size given to a constructor (or to ensureSize) have no effect on results: two collections of one class that were given different valid ones return the same from every operation of any one history, including the entries issued, reused and reserved, values read, sizes, counts, the order of lists, associations and heap elements, and which calls fail. Only getCapacity, the order in which sets and maps are enumerated, and how far beyond the issued entries the storage reaches may differ.",
 ["configurations", "histories"], "all pairs of valid configurations, all histories, for every collection class and element type",
 "Tests use the default sizes or one small one; what happens only just before or after a growth step shows when the same history runs with growth at other points.",
 HASH+BI+HEAP+[DEQ,HYD,VEC,CST,CMS,ARR], [("growth at a load factor", BKI), ("arrays grown on demand with the right fill value", ARR), ("ring buffer grown in the middle of a wrap", DEQ), ("heads, tails and counts grown for a new list", HYD), ("Side arrays grown separately", SIDE)], ["every operation's result"], tech="metamorphic property-based testing: one generated history on two collections of different configurations")

prop("C50", "A cleared collection is as good as a new one",
 "After clear, whatever its history (growth, removals, reserved entries not yet freed, iterators and copies made of it), a set, map, deque, hydra deque, vector or heap gives the results of a newly constructed one with the same functions, comparator and default values for every history from there on: it is empty, entries are issued from 0 again, nothing earlier is found, counted, reused twice or visible at an entry.",
 ["histories", "configurations"], "all histories before and after one or several clears, for every class with a clear method and every element type",
 "Tests clear once and look at the size and one or two re-added elements; a free list or cursor that survives the clear matters several operations later.",
 HASH+HEAP+[DEQ,HYD,VEC], [("nextUnusedEntry, freeList and lists reset", BH), ("freeCount and arrays reset", BKH), ("maxEntry, freeList and counts reset", HYD), ("head and tail reset", DEQ)], ["every operation's result after clear"], tech="metamorphic property-based testing: a used and cleared collection against a new one under one generated history")

STATEFUL = "stateful property-based testing: generated operation histories against a reference model, with shrinking"
CLAIMED = dict(l.split(None, 1) for l in open(ROOT + "/bin/families") if l.strip())
def manifest():
    checks, na = [], []
    for p, tech, note in P:
        i = p["id"]
        if i in CLAIMED:
            checks.append(dict(property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
                evidence_file=f"evidence/{i}.json", technique=tech or STATEFUL, level="exploration",
                level_note=note or NOTE))
        else:
            na.append(dict(property=i, reason=NOT_YET))
    return dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
        notes="Every check builds the working tree of /repo (templates rendered, main sources compiled) and the harness in a "
              "scratch directory, generates cases from VERIF_SEED with a fixed case count per tier, shrinks a failure and writes a "
              "replay file; 'bin/check ID TIER --replay FILE' runs it again. No hooks in /repo.")
NOTE = ("Randomised search: every generated case is decided by an independent reference model executed next to the real code; absence of a "
        "violation is evidence over the generated cases only. Trusts the reference model and the JDK.")
NOT_YET = "the check for this property is still being built"
if __name__ == "__main__":
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p, _, _ in P: f.write(json.dumps(p) + "\n")
    with open(ROOT + "/MANIFEST.json", "w") as f:
        json.dump(manifest(), f, indent=1); f.write("\n")
