import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

TREE="src/tree.rs"; LIB="src/lib.rs"; SET="src/bitset/set.rs"; MAP="src/bitset/map/mod.rs"; LIST="src/bitset/map/list.rs"
ARR="src/collection/array.rs"; HASH="src/collection/hash.rs"; COLL="src/collection/mod.rs"; KEY="src/key.rs"; ITER="src/iter.rs"; MARK="src/markers.rs"

p("C01","Insert, remove and find agree with an ordered map",
"For every tree type the crate offers and every history of insertions, replacements and removals, a lookup finds exactly the keys that are present, with the value stored last, and nothing else. An insertion returns the previous entry exactly when the key was present; a removal returns exactly the removed entry, yields no tree exactly when that entry was the last one, and otherwise yields the tree with every other entry intact. No such history, including one that grows past two elements, empties the tree or refills it, panics or aborts.",
["histories","inputs","configurations"],
"all finite histories of insert / replace / remove / remove-min / remove-max / find over all keys, on every tree assembly (byte set, byte map, recursive trees over array, inline-array, hash and byte-indexed children, BTreeMap, boxed, size-tracking) and every shipped key type",
"The tests insert mostly ascending keys into a handful of u16 trees and never reach most insertion paths (the pinned commit moved the maximum into a subtree whenever a key below the minimum was inserted, and all 78 tests passed).",
[LIB,TREE,SET,MAP,LIST,ARR,HASH,MARK],
[("min/max kept outside the children, displaced entries pushed down","src/tree.rs insert"),("remove: min, max, or descend into the child and fix the summary","src/tree.rs remove"),("child collections report new/emptied subtrees","src/collection/array.rs, src/collection/hash.rs, src/bitset/map/mod.rs"),("bit set paired with a dense list by rank","src/bitset/map/mod.rs")],
[("min","smallest entry, never stored below","src/tree.rs Tree"),("max","largest entry, never stored below","src/tree.rs TreeData"),("summary","set of high halves that have a child","src/tree.rs TreeData.children")],
["return values of insert/remove/remove_min/remove_max/find"])

p("C02","Minimum and maximum are the true extremes",
"After any history, the minimum and maximum reported by a tree are its least and greatest stored entries, each with its current value, whichever accessor (shared or mutable) is used. Removing the minimum or the maximum removes and returns exactly that entry, leaves the next entry as the new extreme, and leaves no tree exactly when it was the last.",
["histories","inputs","configurations"],
"all histories interleaving insertions, removals and extreme removals, including draining a tree from either or both ends, on every assembly and key type",
"Tests check min/max after a few ascending inserts and drain at most four elements; the promotion of a new extreme out of nested subtrees is never exercised with several subtrees or levels.",
[TREE,LIB,SET,MAP,LIST],
[("cached min and max entries","src/tree.rs min_val/max_val"),("promotion of the next extreme from the extreme child of the summary","src/tree.rs remove_min/remove_max/remove"),("lowest/highest bit","src/bitset/set.rs lowest/highest")],
None,["min_val/max_val(+_mut), remove_min, remove_max"])

p("C03","Predecessor and successor return the strict neighbours",
"For every tree and every query key of the key type, stored or not, the successor query returns the least stored entry strictly greater than the key and the predecessor query the greatest stored entry strictly smaller, with that entry's current value, or nothing when there is none. The shared and mutable forms of each query agree.",
["histories","inputs","configurations"],
"all reachable trees times all query keys (below the minimum, equal to and between entries, in populated and empty subtrees, above the maximum, domain ends)",
"Tests query fewer than ten keys around three u16 entries that all live in one subtree; crossing subtrees via the summary, and the mutable variants there, are not reached.",
[TREE,SET,MAP,LIB],
[("search the key's own child, else the neighbouring child via the summary, else min/max","src/tree.rs predecessor/successor"),("separate polonius-based code path for the mutable forms","src/tree.rs predecessor_mut/successor_mut"),("bit masks below / above a bit","src/bitset/set.rs mask_lower/mask_higher")],
None,["predecessor, predecessor_mut, successor, successor_mut"])

p("C04","Writes through mutable access change exactly one entry",
"Every mutable accessor (find, minimum, maximum, predecessor, successor) designates the same key and value as its shared counterpart on the same tree. A value written through it is what every later lookup, neighbour query, iteration or removal returns for that key, survives later insertions and removals that move the entry inside the structure, and no other entry changes.",
["histories","inputs","configurations"],
"all histories interleaving writes through each mutable accessor with insertions and removals, on every map assembly",
"No test ever writes through a mutable accessor; only the returned reference is compared.",
[TREE,LIB,MAP,LIST,ARR,HASH],
[("mutable accessors duplicated by hand from the shared ones","src/tree.rs *_mut"),("rank of the key in the bit set selects the value slot","src/bitset/map/mod.rs")],
None,["*_mut accessors, then find/iteration"])

p("C05","Iteration yields every entry once, in order, from both ends",
"Iterating a tree yields its entries in strictly ascending key order from the front and strictly descending from the back, each entry exactly once, with its current value. This holds for every interleaving of taking from the front and from the back: the two ends meet without overlap or gap, and after the first end-of-iteration every later call from either end also reports the end. Several iterators over one tree, and other questions asked of it meanwhile, do not disturb each other.",
["histories","inputs","configurations"],
"all reachable trees times all interleavings of front and back steps, including continuing after exhaustion",
"Tests use a few fixed interleavings on u16 trees with small dense ascending keys.",
[ITER,TREE,LIB],
[("four-state cursor holding the last key taken from each end","src/iter.rs next/next_back"),("stepping by successor/predecessor from the last key","src/iter.rs")],
[("front_key/back_key","last keys emitted from each end","src/iter.rs IterData")],
["Iter::next, Iter::next_back"])

p("C06","Sizes and single-element status are always right",
"After any history the size-tracking wrapper and the byte set report exactly the number of stored entries, every tree's size bounds contain that number, and a tree reports being a single-element tree exactly when it holds one entry. Deconstructing a tree into its only entry succeeds exactly then and returns that entry. An iterator's size bounds contain the number of entries still to come at every step, and are exact for the size-tracking wrapper.",
["histories","inputs","configurations"],
"all histories with replacements, failed removals and removals from either end; all iterator prefixes from both ends",
"Tests follow one history of four operations for the counter and forward-only hints; replacing, failing and end removals through wrappers are not combined.",
[LIB,ITER,SET,MAP,TREE],
[("counter updated from insert/remove results","src/lib.rs SizedVebTree"),("len_hint default and overrides","src/lib.rs, src/bitset/set.rs"),("emitted counter subtracted from the tree's bounds","src/iter.rs size_hint")],
[("size","number of entries","src/lib.rs SizedVebTree.size"),("emitted","entries already yielded","src/iter.rs Iter.emitted")],
["len, len_hint, is_monad, into_monad, Iter::size_hint/len"])

p("C07","Keys split and recombine without loss and in order",
"For every value of every shipped key type, splitting into a high and a low part and joining them gives the key back, joining any two parts and splitting gives the parts back, and splitting by value and by reference give the same parts, whether parts are passed owned or borrowed. Comparing two keys gives the same answer as comparing their (high, low) pairs. For key types with an array index, different keys have different indices and every index is below the number of slots the type declares for array storage.",
["inputs"],
"all keys and key pairs of (), U2, U4, u8..u128, i8..i128 and arrays of 2..8 and 16 elements; all part pairs; both ownership forms",
"Tests cover 8-bit types and a few literals of the others, never split_ref, u128/i128, arrays of 5, 6, 7, 16, or index(); the pinned commit's index() was out of range for half of all signed keys.",
[KEY],
[("shift/mask and offset arithmetic","src/key.rs VebKey impls"),("hand-written destructuring for arrays","src/key.rs [T; N] impls"),("index()","src/key.rs SizedVebKey")],
None,["split_val, split_ref, join, index, Ord"])

p("C08","Child collections behave as maps of non-empty trees",
"Every child-tree collection behaves as a map from keys to non-empty trees: looking a key up finds its tree exactly when one was inserted and not emptied since; inserting says whether the key's tree is new, and otherwise returns the entry it replaced. Removing returns the removed entry, reports a tree as gone exactly when it became empty, yields no collection exactly when no tree is left, and leaves all other trees alone; a conditional removal that finds nothing hands back the unchanged collection, and an unconditional removal under a missing key panics.",
["histories","inputs","configurations"],
"all histories of create / get / get_mut / insert / remove / conditional remove on array, inline-array, hash (any hasher), byte-indexed and boxed collections",
"Tests run two or three calls on two of the collections; nothing checks the byte-indexed one, collections with many trees, or the missing-key panic (which the byte-indexed one did not raise in release builds at the pinned commit).",
[COLL,ARR,HASH,MAP,LIST],
[("occupied-slot counter","src/collection/array.rs ArrayTreeCollection.count"),("replace_entry_with decides whether the entry stays","src/collection/hash.rs"),("bit set rank indexes the list","src/bitset/map/mod.rs ByteMap")],
[("count","number of occupied slots","src/collection/array.rs"),("set/list","which keys have a tree / the trees in key order","src/bitset/map/mod.rs")],
["TreeCollection methods"])

p("C09","Every stored value and key is owned and dropped exactly once",
"At every point of every history a tree owns exactly one value per stored entry: values handed back by replacement or removal are handed over once, and no value is dropped early, duplicated or kept after its entry left. Once the tree and everything taken from it are gone, every value and key was dropped exactly once and all heap memory is released. The exactly-once accounting also holds when the user's key comparison or cloning panics in the middle of an operation.",
["histories","inputs","configurations","fault_sequences"],
"all histories on every map assembly with drop-tracked values and keys; a panic injected at every possible point of key comparison, cloning, hashing or splitting",
"Tests store plain integers and string literals, for which duplicated, leaked or doubly dropped values are invisible.",
[TREE,MAP,LIST,ARR,HASH,LIB],
[("entries moved by mem::replace/take between levels","src/tree.rs"),("vec_entry / raw_entry replace_entry_with take the subtree out and put it back","src/bitset/map/list.rs, src/collection/hash.rs"),("slot take and restore","src/collection/array.rs")],
None,["drop ledger and heap counter of the harness"])

p("C10","All assemblies of a tree behave identically",
"For one key order, every way of assembling a tree (choice of summary and child trees, child storage, hasher, boxing, size tracking, signed, unsigned or array key with the same order, or the standard B-tree map) gives the same answers to the same history of operations and queries. Only the precision of size bounds may differ.",
["histories","configurations"],
"all histories replayed on every assembly with the same key order, compared step by step without a reference model",
"No test compares two assemblies, and most assemblies (hash, inline array, byte-indexed children, 64/128-bit, array keys) are never run at all.",
[LIB,TREE,MARK,ARR,HASH,MAP,SET,KEY],
[("VebTree trait implemented separately by each piece","src/lib.rs, src/tree.rs, src/bitset"),("forwarding wrappers","src/lib.rs Box, SizedVebTree"),("marker aliases","src/markers.rs")],
None,["every VebTree method"])

p("C11","Work per operation does not grow with the number of entries",
"Lookup, insertion, removal, neighbour queries and each step of an iterator on a recursive tree do a number of key operations (comparisons, splits, joins, copies) and of requests to the parts the tree is made of (leaf and summary trees, child collections, slots of an array, positions of a list) that is at most proportional to the number of times the key can be halved, however many entries are stored and however they are distributed. Creating a single-element tree, and reading extremes, single-element status and size bounds, takes a constant number of both.",
["histories","inputs"],
"all histories over keys of up to 8192 bits (ten halvings) and up to thousands of entries, clustered or spread",
"No test measures work; an extra recursive call per level or a scan over entries returns the same results.",
[TREE,LIB],
[("O(1) insertion into / removal from a single-element child or summary so only one side recurses","src/tree.rs insert/remove*"),("cached min/max","src/tree.rs")],
None,["operation counters in harness key types and harness parts"])

p("C12","Clones are equal and independent",
"A clone of a tree answers every query exactly as the original did at the moment of cloning. From then on the two are independent: no insertion, removal or write through a mutable accessor on one is visible in the other.",
["histories","configurations"],
"all histories with clones taken at any point and later operations directed at either copy, on every assembly that can be cloned",
"No test clones a tree.",
[TREE,SET,HASH],
[("hand-written Clone with structural bounds","src/tree.rs Clone for Tree/TreeData"),("Copy of the byte set","src/bitset/set.rs")],
None,["Clone, then every VebTree method on both copies"])

p("C13","Operations that decline leave the tree unchanged",
"Removing a key that is not stored, deconstructing a tree that holds several entries into a single one, and looking up or asking for a neighbour that does not exist all report failure and leave every entry, value, extreme, size report and neighbour relation of the tree as it was. Inserting under a key already stored changes only that key's value.",
["histories","inputs","configurations"],
"all reachable trees times all absent keys (same subtree, empty subtree, between extremes, outside them) and all stored keys",
"One test removes one absent key from a two-element tree and looks at one assembly.",
[TREE,LIB,MAP,LIST,ARR,HASH,SET],
[("state taken out of the tree must be restored on the failure path","src/tree.rs remove (data.take), src/collection/array.rs maybe_remove_key"),("Err(self) on failure","src/bitset/map/mod.rs, src/bitset/map/list.rs, src/collection/hash.rs, src/lib.rs")],
None,["full observation of the tree before and after"])

p("C14","Behaviour depends only on the contents, not on the history",
"Two trees of the same type that hold the same entries answer every query identically and react identically to every further history, no matter in what order the entries arrived or which other entries came and went before.",
["histories","configurations"],
"all pairs of histories that end in the same contents (sorted, reversed, shuffled, with temporary entries, refilled after draining) followed by any common continuation",
"Tests only look at one history per content.",
[TREE,MAP,LIST,ARR,HASH,LIB],
[("empty subtrees and summaries are dropped, not kept as residue","src/tree.rs remove*"),("counters and bit sets kept in step with children","src/collection/array.rs, src/bitset/map/mod.rs")],
None,["every VebTree method on both trees"])

p("C15","The byte set is an exact set over all 256 keys",
"A byte set contains exactly the bytes inserted and not removed, over the whole range 0..=255; its size, lowest and highest element, membership, and strict neighbours of every byte follow from that content. Two byte sets are equal exactly when they contain the same bytes, and copies are independent values.",
["histories","inputs"],
"all sequences of insertions and removals over 0..=255, each followed by queries for all 256 bytes",
"Tests check the masks of single bits and contiguous ranges from zero; sparse sets across the 127/128 word boundary and removals there are not covered.",
[SET],
[("two 128-bit words with shift masks","src/bitset/set.rs mask_lower/mask_higher/lowest/highest"),("word and bit selection","src/bitset/set.rs set_bit/unset_bit/is_present")],
None,["ByteSet::len/lowest/highest, VebTree methods, =="])

p("C16","Sequence storage keeps positions and reports emptied slots",
"The sequence containers behind byte-indexed maps act as non-empty sequences: reading or writing position i reaches the i-th element, inserting at i shifts later elements by one and changes none, and removing at i returns that element and closes the gap. For sequences of trees, removal inside the tree at position i affects only that tree, reports it as gone and closes the gap exactly when it became empty, yields no sequence exactly when none is left, and returns the sequence unchanged when the inner removal declines.",
["histories","inputs"],
"all histories of insertions, reads, writes and removals at all valid positions of value sequences and tree sequences",
"No test touches the sequence containers directly.",
[LIST],
[("VecDeque adapters with replace_entry_with","src/bitset/map/list.rs")],
None,["List and TreeList methods"])

p("C17","Returned keys behave the same whether owned or borrowed",
"A key handed out by the crate, or built from an owned or a borrowed value, dereferences, compares, re-borrows and converts to an owned key according to the key's value alone, regardless of which form it has.",
["inputs"],
"all values of any key type in all four combinations of owned and borrowed forms",
"Tests only compare keys of the same few literals and never convert re-borrowed ones.",
[KEY],
[("MaybeBorrowed","src/key.rs")],
None,["MaybeBorrowed ==, Deref, borrow, into_or_clone, From"])

p("C18","Two- and four-bit key types stay in range and order numerically",
"The two-bit and four-bit key types always hold a value in range however they are produced: conversions keep exactly the low bits, shifting and combining drop overflowing bits, widening preserves the value, and comparison and equality follow the number held.",
["inputs"],
"all byte inputs, all operand pairs, all shift amounts below the operand's storage width",
"Tests round-trip the in-range values only; the operators and out-of-range conversions are never called.",
[KEY],
[("masking in From<u8>, BitOr, Shl, Shr","src/key.rs U2/U4")],
None,["From, BitOr, Shl, Shr, Ord, Into"])

p("C19","User-supplied parts are used within their contracts, and suffice",
"A tree, byte map or size wrapper assembled from parts the user supplies (leaf and summary trees, child collections, slot arrays, value and tree lists) uses them only within their documented contracts: positions handed to a list lie within its length, slot indices lie below the declared number, an unconditional removal names a tree that is present, a list holds exactly one element per stored key, and after every operation a node's summary holds exactly the keys under which its collection holds a tree. Relying on nothing else, in particular on nothing more precise than valid size bounds or on the form in which keys are handed out, the assembled tree answers every history as an ordered map.",
["histories","inputs","configurations"],
"all histories on all assemblies of which one or more parts are user-written implementations of the public traits",
"Tests assemble trees only from the crate's own parts, which tolerate or mask misuse (a deque that accepts any position, a map that ignores a missing key).",
[TREE,LIB,MAP,LIST,ARR],
[("summary and collection kept in step","src/tree.rs insert/remove/remove_min/remove_max/maybe_remove"),("positions computed from the byte set","src/bitset/map/mod.rs"),("slot index of a key","src/collection/array.rs")],
None,["VebTree, TreeCollection, List, TreeList, OptionArray and the marker traits implemented by the user"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
