"""Writes properties.jsonl and MANIFEST.json from the tables below and props.py (run by hand; outputs are committed)."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
import props
C = 'src/korin/core/public/'
V = 'src/korin/core/private/'
def P(id, title, st, over, text, why, files, mech, observe=(), state=()):
    return dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=[f for f in files], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None))
PS = [
P('C01', 'Binary trees stay balanced, ordered and correctly threaded',
  'After any sequence of node insertions and removals, a binary tree is a search tree in comparison order, is a red-black tree (black root, no red node with a red child, equal black height on every path), and its parent, child, predecessor and successor links agree with each other. In-order traversal in either direction visits every node exactly once, in order, and a node inserted next to equal keys keeps the keys in order.',
  ['histories', 'inputs'], 'every history of insertions and removals, every key order including duplicates, trees of every size',
  'The unit test inserts random numbers and only looks at in-order output; colour, height and thread links of arbitrary shapes and removal cases are not reached.',
  [C + 'containers/tree.h'], [('insert/remove with threading', C + 'containers/tree.h: BinaryNode::insert, insertLeft, insertRight, remove'), ('rebalancing', C + 'containers/tree.h: repairInserted, repairRemoved, rotateLeft, rotateRight')],
  ['in-order iteration', 'node colour, parent, left, right, prev, next']),
P('C02', 'Map behaves as a dictionary with unique keys',
  'A map holds exactly one value per key present: inserting an absent key adds it and inserting a present key replaces its value, the index operator gives the value of the key and adds an absent key with a default value, lookup (by value, by iterator or as a question) tells exactly whether the key is present and returns exactly the value last stored, removal by key or by iterator and popping remove exactly that key (popping hands out its value), every other key keeps its value, and the size counts the keys present. Iteration yields the keys in strictly increasing order; copies hold the same keys and values.',
  ['histories', 'inputs'], 'every history of insertions, lookups and removals over every set of keys',
  'The unit test uses a handful of fixed keys; agreement with a dictionary for arbitrary histories is not checked.',
  [C + 'containers/map.h', C + 'containers/tree.h', C + 'containers/pair.h'], [('key lookup and change', C + 'containers/map.h: operator[], insert, find, has, remove, pop'), ('nodes and size', C + 'containers/tree.h: BinaryTree::replace, removeNode, findNode, numNodes'), ('key comparison', C + 'containers/pair.h: Pair::FindPair')],
  ['Map::find, has, operator[], pop results', 'getSize, getCount', 'iteration']),
P('C03', 'Trees, maps and sets have value semantics and leak nothing',
  'Copying a tree-based container gives an independent, equal container (also when the source is empty), moving transfers the contents and leaves the source empty and usable, and assignment first releases the contents of the target. Every node and element is constructed exactly once and destroyed exactly once, by removal, clearing, assignment or destruction.',
  ['histories', 'inputs'], 'every source shape and every target state, empty containers included',
  'The tests copy one non-empty tree; element lifetimes, empty sources and independence of later changes are not observed.',
  [C + 'containers/tree.h', C + 'containers/map.h', C + 'containers/set.h', C + 'hal/malloc_object.h'], [('subtree cloning and destruction', C + 'containers/tree.h: cloneSubtree, destroySubtree, copy/move constructors and assignment')],
  ['contents of both containers after the operation', 'constructor, destructor and allocator calls']),
P('C04', 'Set operations compute the mathematical set',
  'A set contains each element at most once and iterates in increasing order; adding, removing, membership (get, any, all, begin and end by key) and size agree with the mathematical set. Union, intersection and difference (+ * - and += *= -=) and the comparisons == != <= >= < > (equality, inclusion, strict inclusion) give exactly what set theory defines for the two operands, also when both are the same set; elements that stay keep their value, and operands that are not assigned are left unchanged.',
  ['inputs', 'histories'], 'every pair of sets, including empty, equal, nested, disjoint and interleaved ones, and the same set as both operands',
  'Only a few fixed literals are combined by the unit test; boundary interleavings and the aliased case never occur.',
  [C + 'containers/set.h', C + 'containers/tree.h'], [('merging iteration over both operands', C + 'containers/set.h: operators +=, *=, -=, +, *, -, ==, !=, <=, >=, <, >'), ('membership, insertion and removal', C + 'containers/set.h: get, any, all, set, remove, begin, end'), ('the tree of unique elements behind the set', C + 'containers/tree.h: BinaryTree::insertUnique, findNode, removeNode')],
  ['Set iteration, get, any, all, getSize, comparison operators']),
P('C05', 'Linked list is the sequence of its pushes and removals',
  'At all times a list holds exactly the sequence of elements its history of pushes, pops, removals, copies, moves and clears defines: its length, first and last element, forward and backward iteration all describe that same sequence, and element values are those that were pushed. Elements pushed by value from a live variable leave the variable unchanged, copies are independent of their source, and moved-from lists are empty and still usable.',
  ['histories', 'inputs'], 'every history of list operations, every position of the removed link (head, tail, middle, only one), every length of source and target in assignment',
  'The unit test walks a few fixed histories; removal at both ends, assignment between lists of different lengths and later reuse are combinations it does not contain.',
  [C + 'containers/list.h', C + 'hal/malloc_object.h'], [('link splicing', C + 'containers/list.h: pushBack, pushFront, remove, empty'), ('copy and move', C + 'containers/list.h: constructors and operator=')],
  ['getLength, getHead, getTail, begin/end iteration, popFront, popBack'], [('head/tail/length', 'ends and size of the sequence', C + 'containers/list.h')]),
P('C06', 'Array is the sequence its operations define',
  'At all times an array holds exactly the sequence of elements its history of insertions, appends, removals, copies and moves defines: count, indexing and iteration agree with that sequence, and capacity is never smaller than the count. Growing or shrinking the buffer never loses, duplicates or reorders elements, and copies are independent of their source.',
  ['histories', 'inputs'], 'every history, every index, every element count and capacity, trivially and non-trivially copyable element types',
  'The tests use short arrays and a few positions; insertion and removal at every index across a reallocation is not reached.',
  [C + 'containers/array.h', C + 'generic/generic_platform_memory.h'], [('element moves inside and between buffers', C + 'generic/generic_platform_memory.h'), ('growth and shifting', C + 'containers/array.h: resizeIfNecessary, extendIfNecessary, insertAt, insertFirst, insertLast, removeAt')],
  ['getCount, operator[], iteration']),
P('C07', 'Array elements are constructed and destroyed exactly once',
  'Every element slot of an array that the count includes holds a live object and no other slot does: each object is constructed once before it is used and destroyed once when removed, overwritten by a shorter content, moved out of a discarded buffer, or when the array is emptied or destroyed. No object is used outside its life, and every buffer obtained is released exactly once.',
  ['histories', 'inputs'], 'every history of array operations on an element type with non-trivial constructors and destructor',
  'The tests use integers or strings and do not count constructor and destructor calls.',
  [C + 'containers/array.h', C + 'generic/generic_platform_memory.h', C + 'hal/malloc_object.h'], [('construct, move and destroy helpers', C + 'generic/generic_platform_memory.h')],
  ['constructor, destructor and allocator calls']),
P('C08', 'Strings hold their characters and stay null-terminated',
  'After any string operation the buffer holds exactly the characters of the resulting text followed by one terminating zero, and the reported length is the number of characters before it. Construction, assignment, append (also of a string to itself), concatenation, substring, splicing, case conversion and formatting give exactly the text their arguments define, for arguments of any length, and leave their other arguments unchanged.',
  ['histories', 'inputs'], 'every text length, including empty and longer than any internal buffer, and a string appended to itself',
  'The tests use short literals; long formats, empty operands and aliasing are not exercised.',
  [C + 'containers/string.h', C + 'containers/array.h', C + 'generic/generic_platform_strings.h'], [('terminator upkeep', C + 'containers/string.h: append, operator+=, constructors'), ('formatting', C + 'containers/string.h: format, appendFormat')],
  ['getLength, c-string contents']),
P('C09', 'String search, replace and comparison are exact',
  'Searching returns the first position at or after the start where the pattern occurs, or -1 exactly when there is none; finding all returns every such position in order; replacing all substitutes exactly the non-overlapping occurrences, left to right, never looking into inserted text. Equality and ordered comparison agree with lexicographic comparison of the texts (by the platform char); comparing without case gives zero exactly when the texts are equal up to ASCII letter case, and otherwise the difference of the first characters that differ; comparing the first n characters, from an offset, behaves the same on that range.',
  ['inputs'], 'every text, pattern and start position, including empty and overlapping patterns',
  'The tests search for a few literals; borders, repeated prefixes and start positions past the end are not reached.',
  [C + 'containers/string.h', C + 'generic/generic_platform_strings.h'], [('search loops', C + 'containers/string.h: findIndex, findAll, splice, replaceAll'), ('comparison', C + 'generic/generic_platform_strings.h: cmp, icmp, cmpn, icmpn')],
  ['findIndex, findAll, replaceAll, comparison results']),
P('C10', 'A memory pool hands out disjoint blocks and reuses all of them',
  'A pool of N blocks can hand out N blocks at once, each of at least the requested block size, aligned as requested, inside the pool buffer and disjoint from every other block handed out and not yet released; the next request returns null, and a released block can be handed out again. The number of free blocks always equals N minus the blocks in use, and writing anywhere in a block handed out never disturbs the pool.',
  ['histories', 'inputs', 'configurations'], 'every block count (including none), size and alignment, every order of acquiring and releasing',
  'The unit tests acquire and release in a few orders with one configuration.',
  [C + 'hal/malloc_pool.h', V + 'hal/malloc_pool.cpp'], [('embedded free list', V + 'hal/malloc_pool.cpp: MemoryPool constructor, acquireBlock, releaseBlock')],
  ['addresses returned, getNumFreeBlocks, isExhausted']),
P('C11', 'The growing pool allocator never hands out overlapping memory',
  'The growing pool allocator returns, for every request within its block size and alignment, an aligned block disjoint from all blocks in use, adding a pool when the others are exhausted and reusing released blocks; a request beyond its block size or alignment returns null. It recognises exactly the addresses inside its own pools, and destroying it releases every pool once.',
  ['histories', 'inputs', 'configurations'], 'every configuration and every order of allocation and release across any number of pools',
  'The unit test drives one configuration with at most a few pools in one order.',
  [C + 'hal/malloc_pool.h', V + 'hal/malloc_pool.cpp'], [('pool list and lookup tree', V + 'hal/malloc_pool.cpp: MallocPooled::alloc, free, hasBlock, destructor'), ('pool creation', C + 'hal/malloc_pool.h: createPool, destroyPool')],
  ['addresses returned, hasBlock, getNumPools']),
P('C12', 'The binned allocator picks a bucket that fits every request',
  'For every request size the binned allocator serves the request from a bucket whose blocks are at least as large as the request, and from the smallest such bucket; requests larger than every bucket are not served from a bucket that is too small. Releasing a block returns it to the bucket it came from, an address no bucket handed out is ignored, and destroying the allocator destroys every bucket once. Configurations are powers of two with bucket sizes up to 2^31.',
  ['inputs', 'configurations', 'histories'], 'every request size, every bucket configuration, every order of allocation and release',
  'The unit test uses the default buckets and a few sizes.',
  [C + 'hal/malloc_binned.h', V + 'hal/malloc_binned.cpp'], [('bucket index', C + 'hal/malloc_binned.h: getBucketIdx'), ('alloc/free', V + 'hal/malloc_binned.cpp')],
  ['addresses returned and their usable size']),
P('C13', 'The system allocator returns aligned blocks and preserves contents',
  'The system-backed allocator returns, for every size and power-of-two alignment, a block of at least that size at that alignment; growing or shrinking a block preserves its contents up to the smaller of the two sizes and keeps the alignment. A block is released to the system exactly once, with the address the system gave; resizing to nothing releases it. When the system refuses memory null is returned, and a block that was to be resized stays as it was.',
  ['inputs', 'histories'], 'every size, every power-of-two alignment, every history of alloc, realloc and free',
  'The unit test tries few sizes and alignments and does not look at contents after resizing.',
  [C + 'hal/malloc_ansi.h', V + 'hal/malloc_ansi.cpp'], [('aligned allocation, copy and release', V + 'hal/malloc_ansi.cpp')],
  ['addresses returned, contents, system allocator calls']),
P('C14', 'Sorting returns an ordered permutation',
  'Sorting any range with any strict weak order leaves a permutation of the same elements in that order, touching nothing outside the range; sorting with an argument range applies the same permutation to the arguments. Partitioning around a pivot puts exactly the smaller elements first and returns where the others begin. Ranges of length zero and one, equal elements and presorted input are included.',
  ['inputs'], 'every array content and length, every strict weak order, every sub-range',
  'There is no unit test of sorting at all.',
  [C + 'algorithm/sort.h'], [('partition and recursion', C + 'algorithm/sort.h: partition, quicksort, argquicksort')], ['contents of the array after sorting']),
P('C15', 'Optional constructs and destroys its value exactly when engaged',
  'An optional reports a value exactly when one was given and not since reset, moved away by assignment or replaced, and returns that value. The contained object is constructed once when the optional becomes engaged and destroyed once when it stops being so or is destroyed; an empty optional never constructs, destroys or reads a value, and a copy or move leaves both sides consistent.',
  ['histories', 'inputs'], 'every sequence of construction, assignment from values, empty and engaged optionals, reset and destruction; trivial and non-trivial value types',
  'The unit test uses integers and a few assignments; destructor and constructor counts are not observed.',
  [C + 'templates/optional.h'], [('engaged flag and storage', C + 'templates/optional.h')], ['hasValue, operator*, get, constructor and destructor calls']),
P('C16', 'Atomic operations are indivisible and return the documented value',
  'Every atomic increment, decrement, addition, subtraction and exchange is one indivisible update of the shared value: no concurrent update is lost, and the value returned is the one the documentation names for that very update (old for postfix and low-level forms, new for prefix and compound forms). Loads and stores transfer the whole value with the requested or a stronger memory ordering, assignment returns the assigned value, and arithmetic on atomic pointers counts elements.',
  ['schedules', 'inputs'], 'every interleaving of any number of threads, every integral and pointer value type and every operation',
  'The unit test runs a fixed race or a single thread; lost updates and torn results depend on interleavings.',
  [C + 'templates/atomic.h', C + 'unix/unix_platform_atomics.h', C + 'generic/generic_platform_atomics.h'], [('operators in terms of hardware atomics', C + 'templates/atomic.h'), ('builtins', C + 'unix/unix_platform_atomics.h')],
  ['return values and final values']),
P('C17', 'Function objects call the callable they were given',
  'A function wrapper holds its own copy of the callable it was built from; the wrapper, and every copy or move of it, calls exactly its callable, once, with the arguments given (references passed through) and returns its result, independently of what later happens to the callable or wrapper it was made from. Copies own separate callables, a moved-from wrapper is empty, assignment replaces the previous callable, which is destroyed exactly once, and a wrapper reports correctly whether it is empty.',
  ['inputs', 'histories'], 'every kind of callable (function pointer, lambda with captures, functor, member), every copy and move history',
  'No unit test covers function wrappers.',
  [C + 'templates/function.h'], [('callable storage', C + 'templates/function.h')], ['results of calls']),
P('C18', 'Vector, quaternion and matrix operations follow their definitions',
  'Vector operations with vectors and scalars, on either side, in place or not, even of a vector with itself or with one of its components, are the component-wise operation; dot and cross products, length and normalization follow the algebraic definitions; a comparison mask has the bit of a component set exactly when the comparison holds for it, and a comparison operator holds exactly when it holds for all components. The quaternion product is the Hamilton product, so that it applies the second rotation first; rotating a vector, the inverse rotation, the axes of a rotated frame and conversion to and from axis and angle are the algebraic ones. Matrix construction, indexing, comparison and transposition (in place) are exact.',
  ['inputs'], 'every component value (floating point rounding of each elementary operation apart), every overload',
  'The tests compare a few literals with tolerances; a swapped component or sign in an overload that is not sampled passes.',
  [C + 'math/vec2.h', C + 'math/vec3.h', C + 'math/vec4.h', C + 'math/quat.h', C + 'math/mat4.h', C + 'math/simd_float.h'], [('operators', C + 'math/vec3.h, vec4.h, quat.h')], ['component values']),
P('C19', 'Integer platform math is exact over the whole input range',
  'Over the whole domain of every integer type: aligning down or up to a power of two gives the greatest multiple not above, respectively the smallest multiple above, the argument; the base-two logarithm is its floor; integer power is repeated multiplication (modulo the word size for unsigned types); minimum and maximum of two or more values are one of the values and bound all of them; absolute value removes the sign.',
  ['inputs'], 'every argument of every 8- to 64-bit signed and unsigned type in the documented domain, powers of two and extreme values included',
  'The unit test checks a few values; boundaries of the word, exact powers and the narrow types are not reached.',
  [C + 'generic/generic_platform_math.h'], [('bit operations', C + 'generic/generic_platform_math.h')], ['returned values']),
P('C20', 'The regex executor accepts exactly what its automaton accepts',
  'Running an automaton on a text reports a match exactly when some path of the automaton through the text reaches the final state, whichever order the branches are explored in. Running does not modify the automaton and ends for every automaton and text.',
  ['inputs', 'programs'], 'every automaton (branches, loops, empty transitions) and every text',
  'The tests run a few patterns; exploration order and backtracking through loops are not isolated.',
  [C + 'regex/executor.h', C + 'regex/automaton.h', C + 'regex/state.h'], [('depth-first exploration with backtracking', C + 'regex/executor.h')], ['match result']),
P('C21', 'Regex character classes and atoms accept exactly their characters',
  'Each single-character element of a pattern (literal, any-character, ranges, negated classes, digit, word, space and their complements, case-insensitive forms) accepts exactly the characters its definition names, consumes exactly one of them, and never reads past the end of the text.',
  ['inputs'], 'every character value and every class, at every position including the end of the text',
  'The tests try a few characters per class.',
  [C + 'regex/state.h'], [('state acceptance functions', C + 'regex/state.h')], ['match of single characters']),
P('C22', 'A compiled pattern matches the language of the pattern',
  'Compiling a pattern gives an automaton that accepts exactly the texts in the regular language the pattern denotes under the documented syntax: concatenation, alternation, groups, quantifiers, anchors and escapes, with the documented precedence.',
  ['inputs', 'programs'], 'every pattern and every text', 'The tests sample some fifty pattern and text pairs.',
  [V + 'regex/regex.cpp', C + 'regex/automaton.h', C + 'regex/regex.h'], [('pattern parser', V + 'regex/regex.cpp')], ['match results']),
P('C23', 'Tuples, pairs and fixed arrays keep every component in place',
  'Constructing, copying, moving and assigning tuples, pairs and fixed-size arrays treats each component on its own: every component gets the value given (missing items of a fixed array their default), is constructed and destroyed exactly once, and reading a component by index, by type, as key or value refers to exactly that component. Counts are the number of components. All six comparisons of two pairs are the comparison of their keys by the comparator of the pair.',
  ['inputs'], 'every component value and position', 'Components at every position of mixed-type tuples are not compared after each operation.',
  [C + 'containers/tuple.h', C + 'containers/pair.h', C + 'templates/array.h'], [('component storage', C + 'containers/tuple.h, pair.h, templates/array.h')], ['component values']),
]
def main():
    with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
        for p in PS: f.write(json.dumps(p) + '\n')
    checks = []; na = []
    for p in PS:
        q = props.PROPS.get(p['id'])
        if q is None:
            na.append(dict(property=p['id'], reason=props.NA.get(p['id'], 'no check built yet'))); continue
        cmd = 'python3-vt kv/check.py ' + p['id']
        checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd, technique=q.get('technique', props.TECH), level=q['level'], level_note=q['note']))
    m = dict(version=1, setup_cmd='python3-vt kv/setup.py', checks=checks, not_applicable=na, notes=props.NOTES)
    json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for p in PS: jsonschema.validate(p, s)
        print('valid', len(checks), 'checks', len(na), 'na')
    except ImportError: pass
main()
