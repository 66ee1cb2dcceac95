import re
TECH = 'contract-based deductive verification (weakest-precondition obligations over LLVM IR extracted from /repo on every run, discharged by z3)'
NOTES = ('Contracts in specs/*.py, extraction and verification-condition generator in kv/. A failed obligation starts a search for a failing input that runs the real code (replay/*.cpp, g++ with ASan/UBSan); '
         'where none is found the VIOLATION line ends with no-failing-input-found. The repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt.')
TRUSTED = ['clang 18 front end and the LLVM passes used for extraction (always-inline, sroa, simplifycfg, loop-simplify, dce)', 'kv (parser, verification-condition generator, memory model) in /verif/kv', 'z3 5.3.2 (and cvc5 1.1.2 where it is named as back end)', 'the contracts in /verif/specs as the meaning of the property']
ASSUMPTIONS = ['the verified text is the LLVM IR clang emits for /repo\'s current headers and sources with -fno-exceptions -fno-rtti (no element operation throws); functions without a contract of their own are inlined; Name::Concat is cut from the mirrored headers because clang rejects it',
 'typed memory: an object is accessed through its own field or element type only (no overlapping views of one address by different types)',
 'allocation succeeds and returns a fresh block (contract of MallocBase::alloc)', 'partial correctness: termination of loops is not proved', 'arguments passed by reference do not alias the internals of the container unless the contract says so']
N0 = 'All obligations generated from the current source are discharged for all inputs (unbounded). Trusted: clang front end, the generator in kv/, z3, the contracts themselves; allocation is assumed to succeed, loops to terminate, element operations not to throw.'
LIFE = re.compile(r'lifetime|alive|live block|live element|remain allocated|share a buffer|no node|leak|freed|destroyed|constructed|allocator')
def life(kind, name): return kind in ('lifetime', 'memory', 'precondition', 'safety', 'invariant', 'lemma') or bool(LIFE.search(name))
def life_tree(kind, name): return kind in ('lifetime', 'memory', 'safety') or kind == 'postcondition' and bool(re.search('freed|constructed|exactly one node|at most one node|exactly that node', name))
def order(kind, name): return not re.search(r'\bblack\b|\bred\b|colou?r', name)
def content(kind, name): return kind != 'lifetime' and not (kind == 'postcondition' and LIFE.search(name))
PROPS = {
 'C01': dict(title='Binary trees', level='proof', parts=[('tree', None)], only=content, replay=['tree'], note=N0 + ' The comparison is an uninterpreted total preorder and elements are an opaque class; positions of nodes are ghost labels (points of the unit interval), so the red-black, search-order and thread conditions are local and every obligation is for an arbitrary node. The count is compared with the ghost count of nodes (one more per insertion, one less per removal).'),
 'C02': dict(title='Maps', level='proof', parts=[('maps', None)], only=dict(maps=order), replay=['map'], note=N0 + ' Keys and values are opaque classes, the comparison of keys an uninterpreted total preorder. A pair is one element of the tree (its constructors, assignment, destructor and comparison are verified part by part); the operations of the tree are verified on ghost positions and restated in terms of keys, operator[] (written on the nodes) as well, the other operations of the map over that contract. Keys and values passed in are objects outside the map where they are moved from.'),
 'C03': dict(title='Trees: value semantics', level='proof', parts=[('treelife', None), ('tree', '^tree_(insert|remove|replace)'), ('maps', r'^(map_(copy|assign|move|massign|dtor|index|index_rv)$|_ZN4Pair)|Subtree')], only=dict(tree=life_tree, maps=life_tree), replay=['tree'], note=N0 + ' Copying is proved by a ghost correspondence between source nodes and copies: every source node has exactly one copy with an equal element, the same position, color, links and threads; every node created or reused is such a copy, the others are freed with their element. The two trees are distinct objects that share no node (self-assignment is exercised by the replay only). For maps the instance of a map of opaque keys and values is verified as well; sets inherit these operations unchanged.'),
 'C04': dict(title='Sets', level='proof', parts=[('set', None), ('tree', '^_ZN'), ('treelife', '^_ZN')], only=dict(tree=order, treelife=order), replay=['set'], note=N0 + ' The operations of the tree are verified on ghost positions and, for unique keys, restated in terms of keys (a ghost map from keys to nodes); the operations of the set are verified over that contract only, with an uninterpreted total preorder as comparison and an opaque element. The merging loops are verified with invariants about the part of each set that lies before the current node. Inserted elements may be elements of the other operand; the same set as both operands is a case of its own.'),
 'C05': dict(title='List', level='proof', parts=[('list', None)], replay=['list'], note=N0),
 'C06': dict(title='Array', level='proof', parts=[('arr', None)], only=content, replay=['array'], note=N0 + ' Element types: an opaque class with ghost values, and a 32-bit integer (the memcpy/memmove path). Counts and capacities are below 2^50; arguments do not refer into the array itself; removal stays within the count.'),
 'C07': dict(title='Array lifetimes', level='proof', parts=[('arr', '^(arr_|_ZN)')], only=life, replay=['array'], note=N0 + ' Lifetimes of an opaque element are ghost state changed only by its constructors and destructor; counts and capacities are below 2^50.'),
 'C08': dict(title='Strings', level='proof', parts=[('strs', r'^str_(?!find|replaceAll|i?cmp|(eq|ne|lt|gt|le|ge)C?$)|splice|getLength')], replay=['string'], note=N0 + ' StringBase<char>. What snprintf writes is an uninterpreted text of any length below 2^31 (numbers: below 1024 characters, %f of a double prints at most 317); lengths are below 2^50; splice and substring ranges lie within the text; a replacement is not part of the string it goes into.'),
 'C09': dict(title='String search', level='proof', parts=[('strs', r'^(str_(find|replaceAll|i?cmp|splice|(eq|ne|lt|gt|le|ge)C?$)|pls_|_ZN)')], replay=['string'], note=N0 + ' memcmp returns zero exactly when the bytes are equal. Texts compared hold no zero character; characters compare as the platform char (signed). replaceAll is decided step by step: every replaced range is the first match after the previous replacement and none is left at the end; pattern and replacement are not the string itself.'),
 'C14': dict(title='Sorting', level='proof', parts=[('sort', None)], replay=['sort'], note=N0 + ' The order is an uninterpreted strict weak order; the instance is an array of 32-bit values; recursive calls are checked to be on shorter ranges.'),
 'C15': dict(title='Optional', level='proof', parts=[('optional', None)], replay=['optional'], note=N0 + ' The value type is an opaque class whose lifetime events and values are ghost state, and a 32-bit integer.'),
 'C16': dict(title='Atomic', level='proof', parts=[('atomic', None)], replay=['atomic'], note=N0 + ' Indivisibility: each operation is proved to be exactly one hardware read-modify-write instruction (its atomicity is the hardware/LLVM contract) whose result and operand give the return value.'),
 'C10': dict(title='Memory pool', level='proof', parts=[('pool', None), ('num', 'alignUp')], replay=['pool'], note=N0 + ' posix_memalign is assumed to succeed with fresh aligned memory; block addresses are mathematical integers below 2^63.'),
 'C12': dict(title='Binned allocator', level='proof', parts=[('binned', None), ('num', 'log2')], replay=['binned'], note=N0 + ' Configurations are powers of two with bucket sizes up to 2^31, at least one bucket and a pool that holds one block of the largest. The growing pools behind the buckets are used through the contract C11 states for them; realloc of this allocator is unimplemented in the code (returns null) and not covered. Products of unknown machine words are uninterpreted and related by the facts about powers of two.',
   assumptions=['powers of two: P2(a) is at least 1, at least doubles per step, and P2(a + b) is the product']),
 'C13': dict(title='System allocator', level='proof', parts=[('ansi', None)], replay=['ansi'], note=N0 + ' posix_memalign, malloc_usable_size, free and memcpy are used through their POSIX contracts, with failure of posix_memalign included.'),
 'C17': dict(title='Function objects', level='proof', parts=[('func', None)], replay=['func'], note=N0 + ' Signatures int(int, long long) and void(int &); the callable is an opaque class whose lifetime events and calls are ghost state, a function pointer, or a lambda with captures; results of calls are uninterpreted functions of the state of the callable and the arguments. Wrappers use the owned object through its virtual interface only, for any kind of callable; each kind is verified against that interface through the slots of its vtable.',
   assumptions=['MallocAnsi::alloc and free are used through their contract (C13)']),
 'C18': dict(title='Vector math', level='proof', parts=[('vec', None)], replay=['vec'], note=N0 + ' Floating point numbers are treated as real numbers (rounding, NaN and overflow apart) and division as the product with an uninterpreted inverse; square root, sine, cosine and arc cosine are uninterpreted functions (sqrt(x) squared is x, sin and cos lie on the unit circle, acos inverts cos up to sign); 32-bit integers are bit-vectors. Rotation laws are for unit quaternions. Operands are disjoint objects or the same one.',
   assumptions=['floating point numbers are treated as real numbers: rounding, overflow, NaN and signed zeroes are not covered', 'sqrt, sin, cos and acos are uninterpreted functions with the identities named in the note']),
 'C23': dict(title='Tuples, pairs, fixed arrays', level='proof', parts=[('tup', None)], replay=['tuple'], note=N0 + ' Instances: Tuple<E, int, E, long long>, Tuple<E>, Pair<E, long long>, Pair<E, E>, StaticArray<E, 3>, StaticArray<int, 5> with E an opaque class with ghost lifetimes and values; the comparator of pairs is an uninterpreted function. Loops over the items of a fixed array have a constant number of rounds and are executed.'),
 'C19': dict(title='Integer math', level='proof', parts=[('num', None)], replay=['num'], note=N0 + ' Machine integers are bit-vectors; only the recursion of integer power uses an inductive lemma.'),
}
NA = {
 'C22': 'needs a denotational semantics for the whole pattern grammar tied to a recursive-descent parser that builds automata through overloaded templates and dynamic states; no contract within reach of the generator expresses the compiled language, and the per-state and executor parts are decided by C20/C21 instead',
}
