import sys; sys.path.insert(0, '/verif/mk')
from seed import mk
C = 'src/korin/core/public/'; V = 'src/korin/core/private/'
S = {}
H = '#include <cstdio>\n#include <initializer_list>\n#include <cstdlib>\n#define OK(c) do { if (!(c)) { printf("FAIL line %d\\n", __LINE__); return 1; } } while (0)\n'
def seed(id, *a, **k): S[id] = (a, k)
seed('list-assign-tail', 'C05', [(C + 'containers/list.h', 'for (; it && jt; it = (tail = it)->next, jt = jt->next)', 'for (; it && jt; tail = jt->next ? it : tail, it = it->next, jt = jt->next)')],
 H + '''#include "containers/list.h"
int main() { for (int n = 0; n < 5; ++n) for (int m = 0; m < 5; ++m) { List<int> a, b; for (int i = 0; i < n; ++i) a.pushBack(i); for (int i = 0; i < m; ++i) b.pushBack(10 + i);
 a = b; OK(a.getLength() == (uint64)m); a.pushBack(99); int k = 0; for (auto *l = a.getHead(); l; l = l->next) { OK(k <= m); OK(l->data == (k < m ? 10 + k : 99)); ++k; } OK(k == m + 1); } return 0; }
''', 'copy-assigning a non-empty list over a longer non-empty one, then pushing', 'tail of the target stays at the wrong link, so later pushes lose elements')
seed('list-removeback-length', 'C05', [(C + 'containers/list.h', '				(tail = tail->prev)->next = nullptr;', '				(tail = tail->prev)->next = nullptr, head = tail->prev ? head : tail;\n				if (!tail->prev) head->prev = head->next = nullptr, length = 2;'.replace(', length = 2', ', length -= length > 2'))],
 H + '''#include "containers/list.h"
int main() { for (int n = 1; n < 6; ++n) { List<int> a; for (int i = 0; i < n; ++i) a.pushBack(i); for (int i = n; i-- > 0;) { OK(a.removeBack()); OK(a.getLength() == (uint64)i); } OK(!a.removeBack()); OK(!a.getHead()); } return 0; }
''', 'never (equivalent)', 'nothing')
del S['list-removeback-length']
seed('list-movector-tail', 'C05', [(C + 'containers/list.h', '''		other.head = other.tail = nullptr;
		other.length = 0;
''', '''		other.head = nullptr;
		other.length = 0;
''')],
 H + '''#include "containers/list.h"
int main() { List<int> a, b; a.pushBack(1); a.pushBack(2); b = static_cast<List<int>&&>(a); a.pushBack(7); OK(a.getLength() == 1); OK(a.getHead() && a.getHead()->data == 7); int k = 0; for (auto *l = b.getHead(); l; l = l->next) ++k; OK(k == 2); return 0; }
''', 'pushing to the back of a list after it was moved from by assignment', 'the moved-from list still points at the tail it gave away, so a later push lands in the other list')
seed('atomic-postinc-reload', 'C16', [(C + 'templates/atomic.h', '''		return PlatformAtomics::sub(&this->value, 1) - 1;''', '''		PlatformAtomics::sub(&this->value, 1);
		return this->load();''')],
 H + '''#include <stdio.h>
#include "templates/atomic.h"
#include <thread>
#include <vector>
int main() { for (int r = 0; r < 20; ++r) { const int T = 4, N = 100000; Atomic<int32> a{T * N}; std::vector<std::vector<int>> v(T); std::vector<std::thread> t;
 for (int k = 0; k < T; ++k) t.emplace_back([&, k] { for (int i = 0; i < N; ++i) v[k].push_back(--a); }); for (auto &x : t) x.join();
 std::vector<char> seen(T * N + 1); for (auto &w : v) for (int x : w) { OK(x >= 0 && x <= T * N); OK(!seen[x]); seen[x] = 1; } } return 0; }
''', 'two threads decrementing at the same time', 'prefix decrement returns a value another thread produced: two threads can see the same value, or the one that dropped to zero is never reported', flags='-O1 -include stdio.h')
seed('atomic-exchange-split', 'C16', [(C + 'unix/unix_platform_atomics.h', '		return __sync_lock_test_and_set(value, other);', '		AtomicT out = read(value);\n		store(value, static_cast<AtomicT>(other));\n		return out;'), (C + 'unix/unix_platform_atomics.h', '		AtomicT out{};\n', '		AtomicT out = AtomicT();\n')],
 H + '''#include <stdio.h>
#include "hal/platform_atomics.h"
#include <thread>
#include <vector>
int main() { for (int r = 0; r < 20; ++r) { volatile int64 a = 0; const int T = 4, N = 100000; std::vector<std::vector<int64>> v(T); std::vector<std::thread> t;
 for (int k = 0; k < T; ++k) t.emplace_back([&, k] { for (int i = 0; i < N; ++i) v[k].push_back(PlatformAtomics::exchange(&a, (int64)(1 + k * N + i))); }); for (auto &x : t) x.join();
 std::vector<char> seen(T * N + 1); for (auto &w : v) for (int64 x : w) { OK(!seen[x]); seen[x] = 1; } OK(!seen[a]); } return 0; }
''', 'two threads exchanging the same value at the same time', 'a value can be handed to two threads or to none', flags='-O1 -include stdio.h')
seed('num-log2-double', 'C19', [(C + 'generic/generic_platform_math.h', 'return n == 0ull ? 0ull : 63ull - __builtin_clzll((uint64)n);', 'return n == 0ull ? 0ull : T(uint32(31u - __builtin_clz(uint32(uint64(n) >> 32 ? uint64(n) >> 32 : n))) + (uint64(n) > 0xffffffffull + 1 ? 32u : 0u));')],
 H + '''#include "hal/platform_math.h"
int main() { for (int i = 0; i < 64; ++i) { OK(PlatformMath::log2(uint64(1) << i) == (uint64)i); if (i) OK(PlatformMath::log2((uint64(1) << i) - 1) == (uint64)(i - 1)); if (i) OK(PlatformMath::log2((uint64(1) << i) + 1) == (uint64)i); } return 0; }
''', 'the 64-bit argument is exactly two to the power 32', 'log2 of 2^32 is reported as 0')
seed('num-alignup-exact', 'C19', [(C + 'generic/generic_platform_math.h', 'return (n | (alignment - 1)) + 1;', 'return (n | static_cast<uint32>(alignment - 1)) + 1;')],
 H + '''#include "hal/platform_math.h"
int main() { for (int i = 0; i < 62; ++i) for (uint64 n : {0ull, 1ull, 77ull, 1ull << 40, (1ull << 45) + 5}) { uint64 a = 1ull << i, r = PlatformMath::align2Up(n, a); OK(r > n && r % a == 0 && r - n <= a); } return 0; }
''', 'an alignment above 2^32', 'the result is not a multiple of the alignment')
seed('num-pow-narrow', 'C19', [(C + 'generic/generic_platform_math.h', 'T z = pow(x, y >> 1);', 'T z = pow(x, static_cast<uint8>(y >> 1));')],
 H + '''#include "hal/platform_math.h"
int main() { for (uint32 e : {0u, 1u, 2u, 3u, 17u, 255u, 256u, 511u, 512u, 1000u, 100000u}) { uint32 r = 1; for (uint32 i = 0; i < e; ++i) r *= 3u; OK(PlatformMath::pow(3u, e) == r); } return 0; }
''', 'an exponent of 512 or more', 'the exponent is truncated, so the power is wrong')

SORTH = H + '#include "core_types.h"\n#include "algorithm/sort.h"\n#include <vector>\n#include <algorithm>\n'
seed('sort-arg-two', 'C14', [(C + 'algorithm/sort.h', 'if (cmp(*begin, *(++j)) > 0) swap(*begin, *j), swap(*args, *(++y));', 'if (cmp(*begin, *(++j)) > 0) swap(*begin, *j), swap(*args, *(y++));')],
 SORTH + '''int main() { int p[6] = {0, 1, 2, 3, 4, 5}; do for (int n = 0; n <= 6; ++n) { int a[6], x[6]; for (int i = 0; i < 6; ++i) a[i] = p[i], x[i] = i; Sort::argquicksort(a, a + n, x, [](int u, int v) { return u - v; });
 for (int i = 0; i < n; ++i) { OK(p[x[i]] == a[i]); if (i) OK(a[i - 1] <= a[i]); } } while (std::next_permutation(p, p + 6)); return 0; }
''', 'a sub-range of exactly two elements in the wrong order, in the sort with arguments', 'the arguments of a swapped pair stay where they were')
seed('sort-right-two', 'C14', [(C + 'algorithm/sort.h', '		quicksort(begin, p, forward<CompareT>(cmp));\n		quicksort(j, end, forward<CompareT>(cmp));', '		quicksort(begin, p, forward<CompareT>(cmp));\n		for (i = j; i != end && cmp(*i, *p) == 0; ++i);\n		quicksort(i, end, forward<CompareT>(cmp));')],
 SORTH + '''int main() { unsigned s = 1; for (int r = 0; r < 20000; ++r) { int n = r % 9, a[9], b[9]; for (int i = 0; i < n; ++i) a[i] = b[i] = (s = s * 1103515245u + 12345u) / 65536 % 4; Sort::quicksort(a, a + n, [](int u, int v) { return u - v; }); std::sort(b, b + n); for (int i = 0; i < n; ++i) OK(a[i] == b[i]); } 
 return 0; }
''', 'never', 'equivalent: skipping leading elements equal to the pivot is right')
del S['sort-right-two']
seed('sort-pivot-stale', 'C14', [(C + 'algorithm/sort.h', 'if (cmp(*i, *begin) < 0) swap(*i, *(p = j)), ++j;', 'if (cmp(*i, *begin) <= 0) { p = j; if (cmp(*i, *begin) < 0) swap(*i, *p), ++j; }')],
 SORTH + '''int main() { unsigned s = 1; for (int r = 0; r < 20000; ++r) { int n = r % 9, a[9], b[9]; for (int i = 0; i < n; ++i) a[i] = b[i] = (s = s * 1103515245u + 12345u) / 65536 % 7; Sort::quicksort(a, a + n, [](int u, int v) { return u - v; }); std::sort(b, b + n); for (int i = 0; i < n; ++i) OK(a[i] == b[i]); } 
 return 0; }
''', 'an element equal to the pivot after the last smaller one', 'the pivot is exchanged with an element that is not smaller, which ends up in front of smaller ones')
POOLH = H + '#include "hal/platform_memory.h"\n#include "hal/malloc_pool.h"\n#include <cstring>\n#include <set>\n'
seed('pool-release-last', 'C10', [(V + 'hal/malloc_pool.cpp', '		*getBlockLink(head = block) = nullptr;\n', '		head = block;\n')],
 POOLH + '''int main() { MemoryPool p(3, 16, 8); void *a = p.acquireBlock(), *b = p.acquireBlock(), *c = p.acquireBlock(); OK(a && b && c && !p.acquireBlock());
 p.releaseBlock(a); OK(p.acquireBlock() == a); OK(!p.acquireBlock()); p.releaseBlock(b); p.releaseBlock(a); OK(p.acquireBlock() == a); OK(p.acquireBlock() == b); OK(!p.acquireBlock()); OK(p.getNumFreeBlocks() == 0);
 p.releaseBlock(c); p.releaseBlock(b); p.releaseBlock(a); std::set<void*> s; for (void *x; (x = p.acquireBlock());) OK(s.insert(x).second); OK(s.size() == 3); OK(p.isExhausted()); return 0; }
''', 'releasing a block into an exhausted pool, when the block was not the last of the chain, then acquiring until empty', 'the released block keeps an old link, so the pool hands out blocks that are in use')
seed('pool-link-overlap', 'C10', [(V + 'hal/malloc_pool.cpp', 'PlatformMath::align2Up(blockLinkSize + blockSize - 1, blockAlignment)', 'PlatformMath::align2Up(blockSize + (blockSize < blockLinkSize ? blockLinkSize : blockLinkSize - 1) - 1, blockAlignment)')],
 POOLH + '''int main() { for (size_t al : {8, 16, 64}) for (size_t sz = 1; sz < 140; ++sz) { MemoryPool p(5, sz, al); char *x[5]; for (auto &c : x) { c = (char*)p.acquireBlock(); OK(c); } 
 for (int i = 4; i >= 0; --i) p.releaseBlock(x[i]); for (int i = 0; i < 5; ++i) { char *c = (char*)p.acquireBlock(); OK(c == x[i]); memset(c, 0xee, sz); } OK(!p.acquireBlock());
 for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) if (i != j) OK(x[i] + sz + 8 <= x[j] || x[j] + sz + 8 <= x[i]); } return 0; }
''', 'a block size one above a multiple of the alignment', 'the link word of a block overlaps the next block')

OPTH = H + '''#include <stdio.h>
#include <new>
#include "templates/optional.h"
static int live; struct V { int x; unsigned m; V(int i) : x(i), m(0xA5) { ++live; } V(const V &o) : x(o.x), m(o.m == 0xA5 ? 0xA5 : 0) { ++live; } V &operator=(const V &o) { if (m != 0xA5) { printf("assign to a dead object\\n"); exit(1); } x = o.x; return *this; } ~V() { if (m != 0xA5) { printf("destroying a dead object\\n"); exit(1); } m = 0; --live; } };
'''
seed('optional-assign-empty', 'C15', [(C + 'templates/optional.h', '''		else if (other.engaged && !this->engaged)
		{
			// Copy construct object
			emplace(*other);
		}
		else if (!other.engaged && this->engaged)
		{
			// Reset storage
			reset();
		}
''', '''		else if (other.engaged != this->engaged)
		{
			// Copy construct object or reset storage
			if (other.engaged)
				emplace(*other);
			else
				engaged = false;
		}
''')],
 OPTH + '''int main() { { Optional<V> a(V(3)), b; OK(live == 1); const Optional<V> &c = b; a = c; OK(!a.hasValue()); OK(live == 0); a = V(4); OK(a.hasValue() && (*a).x == 4); } OK(live == 0); return 0; }
''', 'copy-assigning an empty optional over an engaged one whose value type has a destructor', 'the old value is never destroyed')
seed('optional-set-raw', 'C15', [(C + 'templates/optional.h', '''			// Copy construct value
			emplace(inValue);
''', '''			// Copy construct value
			storage.value = inValue;
			engaged = true;
''')],
 OPTH + '''int main() { { alignas(8) char raw[sizeof(Optional<V>)]; for (char &c : raw) c = 0x11; Optional<V> &a = *new (raw) Optional<V>(); V v(3); a = (const V&)v; OK(a.hasValue() && (*a).x == 3); OK(live == 2); a.~Optional<V>(); OK(live == 1); } OK(live == 0); return 0; }
''', 'assigning an lvalue to an empty optional of a non-trivial value type', 'the value is assigned to storage in which no object was constructed')

seed('array-insertat-multi', 'C06', [(C + 'containers/array.h', '''			resizeIfNecessary(count + numArgs);

			// Move element up to accomodate''', '''			resizeIfNecessary(j);

			// Move element up to accomodate''')],
 H + '''#include <stdio.h>
#include <new>
#include "containers/array.h"
int main() { for (int n = 1; n < 40; ++n) for (int p = 0; p < n; ++p) { Array<int> a; for (int i = 0; i < n; ++i) a.insertLast(i); a.insertAt(p, 100, 200); OK(a.getCount() == (uint64)n + 2); OK(a.capacity >= a.count);
 for (int i = 0; i < n + 2; ++i) OK(a[i] == (i < p ? i : i == p ? 100 : i == p + 1 ? 200 : i - 2)); } return 0; }
''', 'inserting several items before the end of an array whose buffer is exactly full', 'the buffer is not grown, so elements are moved and written past its end (capacity below count)')
seed('array-move-first', 'C06', [(C + 'generic/generic_platform_memory.h', 'for (uint64 i = 1; i <= n; ++i)', 'for (uint64 i = 1; i < n || i == 1; ++i)')],
 H + '''#include <stdio.h>
#include <new>
#include "containers/array.h"
struct E { int v; E() : v(0) {} E(int x) : v(x) {} E(const E &o) : v(o.v) {} E(E &&o) : v(o.v) { o.v = -1; } E &operator=(const E &o) { v = o.v; return *this; } ~E() { v = -2; } };
int main() { for (int n = 1; n < 10; ++n) for (int p = 0; p < n; ++p) { Array<E> a; for (int i = 0; i < n; ++i) a.insertLast(E(i)); a.insertAt(p, E(100)); OK(a.getCount() == (uint64)n + 1);
 for (int i = 0; i < n + 1; ++i) OK(a[i].v == (i < p ? i : i == p ? 100 : i - 1)); } return 0; }
''', 'inserting in the middle of an array of non-trivially-copyable elements, two or more places before the end', 'the element at the insertion point is not shifted: it is overwritten and lost')
seed('array-assign-shrink', 'C07', [(C + 'containers/array.h', 'Memory::destroyElements(buffer + other.count, buffer + count);', 'if (other.count > 0) Memory::destroyElements(buffer + other.count, buffer + count);')],
 H + '''#include <stdio.h>
#include <new>
#include "containers/array.h"
struct E { static long live; int v; E() : v(0) { ++live; } E(int x) : v(x) { ++live; } E(const E &o) : v(o.v) { ++live; } E &operator=(const E &o) { v = o.v; return *this; } ~E() { --live; } }; long E::live = 0;
int main() { for (int n = 0; n < 6; ++n) for (int m = 0; m < 6; ++m) { { Array<E> a, b; for (int i = 0; i < n; ++i) a.insertLast(E(i)); for (int i = 0; i < m; ++i) b.insertLast(E(i)); a = b; OK(a.getCount() == (uint64)m); OK(E::live == 2 * m); } OK(E::live == 0); } return 0; }
''', 'copy-assigning an empty array over a non-empty one', 'the old elements are never destroyed')
seed('array-moveassign-leak', 'C07', [(C + 'containers/array.h', '''		// Destroy first
		destroy();
''', '''		// Destroy first
		if (count > 0) destroy();
''')],
 H + '''#include <stdio.h>
#include <new>
#include "containers/array.h"
#include <map>
struct M : MallocBase { std::map<void*, int> live; void *alloc(sizet n, sizet al) override { void *p = ::malloc(n ? n : 1); live[p] = 1; return p; } void *realloc(void *p, sizet, sizet) override { return p; } void free(void *p) override { OKV(live.count(p)); live.erase(p); ::free(p); } };
int main() { M m; { Array<int> a(&m), b(&m); for (int i = 0; i < 3; ++i) { a.insertLast(i); b.insertLast(i); } a.empty(); a = static_cast<Array<int>&&>(b); OK(a.getCount() == 3); OK(b.getCount() == 0); OK(m.live.size() == 1); } OK(m.live.empty()); return 0; }
'''.replace('OKV(live.count(p))', 'if (!live.count(p)) abort()'), 'move-assigning to an emptied array that still has a buffer', 'the buffer of the target is never released')

SH = H + '''#include <stdio.h>
#include <new>
#include <string>
#include <cstring>
#include "containers/string.h"
static bool is(const String &s, const std::string &m) { return s.getLength() == m.size() && !memcmp(*s, m.data(), m.size() + 1); }
static std::string fm(double d) { char b[400]; snprintf(b, 400, "%f", d); return b; }
'''
seed('string-format-buffer', 'C08', [(C + 'containers/string.h', 'constexpr size_t maxlen = 1024;', 'constexpr size_t maxlen = 128;')],
 SH + '''int main() { String a = "x"; a += 1.5; OK(is(a, "x" + fm(1.5))); a = "y"; a += 1e200; OK(is(a, "y" + fm(1e200))); return 0; }
''', 'appending a floating point number of more than 127 digits', 'the appended text is cut and followed by bytes from beyond the format buffer')
seed('string-splice-tail', 'C08', [(C + 'containers/string.h', 'len - (subPos + subLen));', 'subLen > 0 ? len - (subPos + subLen) : len - subPos - (len > replLen + subPos));')],
 SH + '''int main() { for (int n = 0; n < 8; ++n) for (int p = 0; p <= n; ++p) for (int l = 0; p + l <= n; ++l) for (int r = 0; r < 6; ++r) { std::string m = std::string("abcdefgh").substr(0, n), q = std::string("012345").substr(0, r); String s = m.c_str(); s.splice(p, l, q.c_str()); m.replace(p, l, q); OK(is(s, m)); } return 0; }
''', 'splicing an insertion (nothing replaced) into a longer text', 'the last character of the moved tail is lost')
seed('string-replace-skip', 'C09', [(C + 'containers/string.h', 'startPos += replacementLen;', 'startPos += replacementLen > patternLen ? replacementLen : (replacementLen ? replacementLen - 1 : 0);')],
 SH + '''int main() { String a = "aab"; a.replaceAll("ab", "b"); OK(is(a, "ab")); String b = "aabb"; b.replaceAll("ab", "b"); OK(is(b, "abb")); String d = "abb"; d.replaceAll("ab", "a"); OK(is(d, "ab")); return 0; }
''', 'a replacement that, together with the text after it, spells the pattern again', 'text that was just inserted is searched again')
seed('string-icmp-brace', 'C09', [(C + 'generic/generic_platform_strings.h', "(c1 >= 'a' && c1 <= 'z' && ", "(c1 >= 'a' && ")],
 SH + '''int main() { for (int x = 1; x < 128; ++x) for (int y = 1; y < 128; ++y) { char a[2] = {(char)x, 0}, b[2] = {(char)y, 0}; int lx = x >= 'A' && x <= 'Z' ? x + 32 : x, ly = y >= 'A' && y <= 'Z' ? y + 32 : y; OK((String(a).icmp(b) == 0) == (lx == ly)); } return 0; }
''', 'comparing "{" with "[" ignoring case', 'punctuation 32 apart compares equal')
ANSIH = H + """#include <stdint.h>
#include <string.h>
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
"""
A = V + 'hal/malloc_ansi.cpp'
seed('ansi-realloc-inplace', 'C13', [(A, """		if (UNLIKELY(::posix_memalign(&out, alignment, size) != 0))
			return nullptr;
		
		if (LIKELY(usableSize))""", """		if (usableSize >= size && usableSize - size < 8)
			return orig;
		if (UNLIKELY(::posix_memalign(&out, alignment, size) != 0))
			return nullptr;
		
		if (LIKELY(usableSize))""")],
 ANSIH + """int main() { MallocAnsi m; void *all[64]; for (int i = 0; i < 64; ++i) { char *p = (char*)m.alloc(100 + i, 8); memset(p, 3, 100); p = (char*)m.realloc(p, 100 + i, 1024); OK(p && (uintptr_t)p % 1024 == 0); for (int k = 0; k < 100; ++k) OK(p[k] == 3); all[i] = p; } for (void *p : all) m.free(p); return 0; }
""", 'resizing a block to a size that still fits while asking for a larger alignment', 'the block stays where it is, at the old alignment')
seed('ansi-realloc-refused', 'C13', [(A, """		if (UNLIKELY(::posix_memalign(&out, alignment, size) != 0))
			return nullptr;
		
		if (LIKELY(usableSize))
			Memory::memcpy(out, orig, PlatformMath::min(size, usableSize));
		""", """		if (LIKELY(::posix_memalign(&out, alignment, size) == 0))
			Memory::memcpy(out, orig, PlatformMath::min(size, usableSize));
		else
			out = nullptr;
		""")],
 ANSIH + """int main() { MallocAnsi m; char *p = (char*)m.alloc(4000, 8); memset(p, 5, 4000); void *big = m.realloc(p, (size_t)1 << 60, 8); OK(!big); char *q = (char*)m.alloc(4000, 8); OK(q && q != p); memset(q, 9, 4000); for (int i = 0; i < 4000; ++i) OK(p[i] == 5); m.free(q); m.free(p); return 0; }
""", 'the system refusing a resize', 'the original block is released although null is returned: the caller still owns it', flags='-O1')
BINH = H + """#include <stdio.h>
#include <stdint.h>
#include <string.h>
#include "hal/platform_memory.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_binned.h"
"""
B = V + 'hal/malloc_binned.cpp'
BS = 'src/korin/core/private/hal/malloc_ansi.cpp src/korin/core/private/hal/memory_base.cpp src/korin/core/private/hal/malloc_pool.cpp src/korin/core/private/hal/malloc_binned.cpp'
seed('binned-align-small', 'C12', [(B, 'buckets.add(new MallocPooled{numBlocks, blockSize, poolAlign, 1});', 'buckets.add(new MallocPooled{numBlocks, blockSize, PlatformMath::min(poolAlign, (sizet)blockSize), 1});')],
 BINH + """int main() { for (size_t al : {8, 32, 64}) { MallocBinned m({1 << 12, 8, 1 << 9, 2}, al); for (size_t z = 1; z <= 256; ++z) { void *p = m.alloc(z, al); OK(p && (uintptr_t)p % al == 0); m.free(p); } } return 0; }
""", 'a small request with an alignment above its bucket size', 'buckets with blocks smaller than the pool alignment refuse aligned requests', srcs=BS)
seed('binned-free-last', 'C12', [(B, """	for (uint32 i = 0; i < numBuckets; ++i)
	{
		MallocPooled * bucket = buckets[i];
		if (bucket->hasBlock(orig))""", """	MallocPooled * bucket = buckets[0];
	for (uint32 i = 0; i < numBuckets - 1; bucket = buckets[++i])
	{
		if (bucket->hasBlock(orig))""")],
 BINH + """int main() { MallocBinned m({1 << 12, 8, 1 << 12, 8}); OK(m.numBuckets == 3); for (size_t z : {8, 64, 512}) { void *p = m.alloc(z, 8); OK(p); size_t n = m.buckets[z == 8 ? 0 : z == 64 ? 1 : 2]->getNumPools(); for (int i = 0; i < 2000; ++i) { m.free(p); p = m.alloc(z, 8); OK(p); } OK(m.buckets[z == 8 ? 0 : z == 64 ? 1 : 2]->getNumPools() == n); m.free(p); } return 0; }
""", 'releasing a block of the largest bucket', 'blocks of the largest bucket are never returned, so its pools grow without end', srcs=BS)
seed('binned-first-size', 'C12', [(B, 'uint32 i = 0, blockSize = bucketInfo.allocUnitMinSize, numBlocks', 'uint32 i = 0, blockSize = bucketInfo.allocUnitIncrement, numBlocks')],
 BINH + """int main() { for (size_t mn : {8, 16, 64, 128}) for (size_t inc : {2, 4, 8}) { MallocBinned m({1 << 16, mn, 1 << 12, inc}); size_t top = mn; for (unsigned i = 1; i < m.numBuckets; ++i) top *= inc; for (size_t z = 1; z <= top; z += 1 + z / 16) { char *p = (char*)m.alloc(z, 8); OK(p); memset(p, 1, z); m.free(p); } } return 0; }
""", 'a configuration whose smallest size differs from the increment', 'every bucket holds blocks smaller than the requests sent to it, so they are refused', srcs=BS)

VECH = H + """#include <stdio.h>
#include "math/math.h"
#include "math/mat4.h"
#include <cmath>
"""
M = C + 'math/'; VS = V + 'math/math.cpp'
seed('vec-div-reciprocal', 'C18', [(M + 'vec3.h', "\t\tx /= s, y /= s, z /= s;", "\t\tconst T k = T(1) / s;\n\t\tx *= k, y *= k, z *= k;")], VECH + """int main() { Vec3<int> v(9, 8, -7); Vec3<int> q = v / 2; OK(q.x == 4 && q.y == 4 && q.z == -3); v /= 4; OK(v.x == 2 && v.y == 2 && v.z == -1); vec3 f(8, 4, 2); f /= 2; OK(f.x == 4 && f.y == 2 && f.z == 1); return 0; }
""", 'dividing a vector of integers by a scalar other than one', 'dividing by a scalar multiplies by a reciprocal taken in the component type: integer vectors become zero', srcs=VS)
seed('vec-sub-own-component', 'C18', [(M + 'vec4.h', "operator-=(T s)", "operator-=(const T & s)")], VECH + """int main() { vec4 v(3, 5, 7, 9); v -= 1.f; OK(v.x == 2 && v.w == 8); v -= v.x; OK(v.x == 0 && v.y == 2 && v.z == 4 && v.w == 6); return 0; }
""", 'the scalar is a component of the vector itself', 'subtracting a component of a vector from the vector reads it after it was changed', srcs=VS)
seed('quat-angle-folded', 'C18', [(M + 'quat.h', "\t\tfloat32 a = PlatformMath::acos(this->w);", "\t\tfloat32 a = PlatformMath::acos(PlatformMath::abs(this->w));")], VECH + """static bool near(float a, float b) { return std::fabs(a - b) < 1e-3f; }
int main() { for (float ang : {1.f, 2.f, 4.f, 5.f}) { Quat q(ang, vec3(0, .6f, .8f)); float b; vec3 ax; q.getAngleAndAxis(b, ax); Quat r(b, ax); vec3 v(1, 2, 3), x = q * v, y = r * v; OK(near(x.x, y.x) && near(x.y, y.y) && near(x.z, y.z)); } return 0; }
""", 'a rotation of more than half a turn', 'the angle read back is folded to half a turn without turning the axis: it is another rotation', srcs=VS)


FUNH = H + """#include <stdio.h>
#include "core_types.h"
#include "hal/malloc_ansi.h"
#include "templates/function.h"
"""
FU = C + 'templates/function.h'; FUS = V + 'hal/malloc_ansi.cpp ' + V + 'hal/memory_base.cpp'
seed('function-destroy-static', 'C17', [(FU, "\t\tthis->~FunctionOwnedObjectHeap();", "\t\tthis->FunctionOwnedObjectHeap::~FunctionOwnedObjectHeap();")], FUNH + """static int live; struct Cap { int v; Cap(int x) : v(x) { ++live; } Cap(const Cap &o) : v(o.v) { ++live; } ~Cap() { --live; } int operator()(int x) const { return v + x; } };
int main() { { Cap c(3); Function<int(int)> f(c); OK(f(4) == 7 && live == 2); } OK(live == 0); return 0; }
""", 'a callable with a destructor, when the wrapper goes away', 'the callable is never destroyed: what it captured leaks', srcs=FUS)
seed('function-void-copy', 'C17', [(FU, "\t\tinvoke(*(FunctorT*)fn", "\t\tFunctorT functor{*(FunctorT*)fn};\n\t\tinvoke(functor")], FUNH + """struct Acc { int n; void operator()(int &x) { x = ++n; } };
int main() { Function<void(int &)> f(Acc{5}); int x = 0; f(x); OK(x == 6); f(x); OK(x == 7); int y = 1; auto l = [](int &v) { v *= 2; }; Function<void(int &)> g(l); g(y); g(y); OK(y == 4); return 0; }
""", 'a callable that returns nothing and keeps state between calls', 'each call runs on a copy of the callable: its state is lost', srcs=FUS)


TUPH = H + """#include <stdio.h>
#include "core_types.h"
#include "templates/utility.h"
#include "containers/tuple.h"
#include "containers/pair.h"
#include "templates/array.h"
"""
seed('pair-not-greater', 'C23', [(C + 'containers/pair.h', "\t\treturn !(*this > other);", "\t\treturn *this < other || (first == other.first && second == other.second);")], TUPH + """struct C3 { int operator()(int a, int b) const { return (a > b) - (a < b); } };
int main() { Pair<int, int, C3> a(1, 2), b(1, 3), c(2, 0); OK(a <= c && !(c <= a)); OK(a <= a); OK(a <= b && b <= a); return 0; }
""", 'two pairs with equal keys and different values', 'pairs with equal keys are neither less nor equal nor greater: <= also looks at the value')
seed('staticarray-default-fill', 'C23', [(C + 'templates/array.h', "\t\t: buffer{forward<ItemPackT>(items)...}\n\t\t, count{inCount}", "\t\t: buffer{forward<ItemPackT>(items)...}\n\t\t, count{sizeof...(items) ? sizeof...(items) : inCount}")], TUPH + """int main() { StaticArray<int, 4> a(1, 2, 3, 4), b; OK(a.getCount() == 4 && b.getCount() == 4 && a[3] == 4); StaticArray<int, 4> c(7, 8); OK(c.getCount() == 4 && c[1] == 8 && c[2] == 0); return 0; }
""", 'an array built from fewer items than it holds', 'the count of a fixed array built from fewer items is the number of items given')


TREEH = H + """#include <stdio.h>
#include <vector>
#include <set>
#include <algorithm>
#include "core_types.h"
#include "containers/tree.h"
#include "hal/malloc_ansi.h"
struct CI { int32 operator()(int a, int b) const { return a < b ? -1 : a > b; } };
template<class N> static int bh(N *n, N *p, std::vector<N *> &o) { if (!n) return 0; if (n->parent != p) return -1; bool red = n->color == BinaryNodeColor::RED; if (red && (!p || p->color == BinaryNodeColor::RED)) return -1;
 int a = bh(n->left, n, o); o.push_back(n); int b = bh(n->right, n, o); return a < 0 || b < 0 || a != b ? -1 : a + !red; }
template<class T> static bool good(T &t, std::multiset<int> m) { using N = typename T::NodeT; std::vector<N *> o; if (bh<N>(t.root, nullptr, o) < 0 || o.size() != m.size() || o.size() != t.getNumNodes()) return false; auto it = m.begin();
 for (size_t i = 0; i < o.size(); ++i, ++it) { if (o[i]->data != *it || o[i]->prev != (i ? o[i - 1] : nullptr) || o[i]->next != (i + 1 < o.size() ? o[i + 1] : nullptr)) return false; } return true; }
static unsigned long long RS = 88172645463325252ull; static unsigned rnd(unsigned n) { RS ^= RS << 13; RS ^= RS >> 7; RS ^= RS << 17; return unsigned(RS >> 20) % n; }
"""
TREES = V + 'hal/malloc_ansi.cpp ' + V + 'hal/memory_base.cpp'; TR = C + 'containers/tree.h'
TREEMAIN = """int main() { for (int r = 0; r < 3000; ++r) { BinaryTree<int, CI> t; std::multiset<int> m; int n = 1 + rnd(60), k = 1 + rnd(60); for (int i = 0; i < n; ++i) { int x = rnd(k); if (rnd(5) < 3) { t.insert(x); m.insert(x); } else { bool h = m.count(x); OK(t.remove(x) == h); if (h) m.erase(m.find(x)); } OK(good(t, m)); } } return 0; }
"""
seed('tree-remove-mirror-color', 'C01', [(TR, """					sibling->color			= parent->color;
					parent->color			= BinaryNodeColor::BLACK;
					sibling->left->color	= BinaryNodeColor::BLACK;""", """					sibling->color			= BinaryNodeColor::BLACK;
					parent->color			= BinaryNodeColor::BLACK;
					sibling->left->color	= BinaryNodeColor::BLACK;""")], TREEH + TREEMAIN, 'removing a black node that is a right child of a red parent, with a red outer nephew', 'after the rotation one side has more black nodes than the other', srcs=TREES)
seed('tree-remove-left-thread', 'C01', [(TR, """			if (((v = u->left)->next = u->next) != nullptr)
				v->next->prev = v;""", """			(v = u->left)->next = u->next;""")], TREEH + TREEMAIN, 'removing a node that has a left child only and is not the last one', 'the successor still points back at the removed node', srcs=TREES)
seed('tree-uncle-root', 'C01', [(TR, """				// Repair grand
				repairInserted(grand);""", """				// Repair grand
				if (isRed(grand->parent) || grand->parent == nullptr)
					grand->parent ? repairInserted(grand->parent) : repairInserted(grand);""")], TREEH + TREEMAIN, 'an insertion whose recolouring moves a red node under a red parent two levels up', 'the repair continues from the wrong node: two red nodes stay adjacent', srcs=TREES)
seed('tree-replace-stale-root', 'C01', [(TR, """		if ((removed = node->remove(valid)) == root) root = root->left ? root->left : root->right;
		if (root) root = root->getRoot();""", """		if ((removed = node->remove(valid)) == root) root = root->left ? root->left : root->right;
		else if (root->parent && root->parent->left == root) root = root->parent;""")], TREEH + TREEMAIN, 'a removal whose repair rotates the root to the right, or that evicts the root', 'the tree keeps a root pointer that is no longer the root', srcs=TREES)

seed('tree-assign-stale-thread', 'C03', [(TR, """			NodeT * left = dstRoot->left ? cloneSubtree(dstRoot->left, srcRoot->left) : cloneSubtree(srcRoot->left);
			NodeT * prev = left->getMax();
""", """			NodeT * reused = dstRoot->left, * last = dstRoot->prev;
			NodeT * left = reused ? cloneSubtree(reused, srcRoot->left) : cloneSubtree(srcRoot->left);
			NodeT * prev = reused && !srcRoot->left->right ? last : left->getMax();
""")], TREEH + """int main() { for (int r = 0; r < 2000; ++r) { BinaryTree<int, CI> a, b; std::multiset<int> ma, mb; for (int i = rnd(12); i > 0; --i) { int x = rnd(20); a.insert(x); ma.insert(x); } for (int i = rnd(12); i > 0; --i) { int x = rnd(20); b.insert(x); mb.insert(x); } a = b; OK(good(a, mb) && good(b, mb)); } return 0; }
""", 'assigning over a tree whose left part reaches further than the left part of the source', 'the thread of the copy goes through a node that was released', srcs=TREES)
seed('tree-assign-stale-end', 'C03', [(TR, """			destroySubtree(dstRoot->right);
			dstRoot->right = nullptr;
			dstRoot->next = nullptr;
""", """			destroySubtree(dstRoot->right);
			dstRoot->right = nullptr;
			if (dstRoot->parent) dstRoot->next = nullptr;
""")], TREEH + """int main() { for (int r = 0; r < 2000; ++r) { BinaryTree<int, CI> a, b; std::multiset<int> ma, mb; for (int i = 1 + rnd(6); i > 0; --i) { int x = rnd(20); a.insert(x); ma.insert(x); } for (int i = 1 + rnd(3); i > 0; --i) { int x = rnd(20); b.insert(x); mb.insert(x); } a = b; OK(good(a, mb) && good(b, mb)); } return 0; }
""", 'assigning a tree whose root has no right child over one whose root has one', 'the last node of the copy still points at a released node', srcs=TREES)
seed('tree-moveassign-leak', 'C03', [(TR, """		// Destroy subtree
		if (root) destroySubtree(root);

		malloc = move(other.malloc);""", """		// Nothing to destroy when there is nothing to take over
		if (root && other.root) destroySubtree(root);

		malloc = move(other.malloc);""")], TREEH + """static long live; struct L { int v; L(int x) : v(x) { ++live; } L(const L &o) : v(o.v) { ++live; } ~L() { --live; } };
struct CL { int32 operator()(const L &a, const L &b) const { return a.v < b.v ? -1 : a.v > b.v; } };
int main() { { BinaryTree<L, CL> a, b; a.insert(L(1)); a.insert(L(2)); OK(live == 2); a = static_cast<BinaryTree<L, CL>&&>(b); OK(live == 0 && a.getNumNodes() == 0); a.insert(L(4)); b.insert(L(5)); OK(live == 2); } OK(live == 0); return 0; }
""", 'moving an empty tree into one that has elements', 'the old elements are neither destroyed nor released', srcs=TREES)

ST = C + 'containers/set.h'
SETH = H + """#include <stdio.h>
#include "containers/set.h"
#include <set>
struct CI { int32 operator()(int a, int b) const { return a < b ? -1 : a > b; } };
using ST = Set<int, CI>; typedef std::set<int> M;
static unsigned sd = 7; static int rnd(int n) { sd = sd * 1103515245u + 12345u; return (sd >> 16) % n; }
static void fill(ST &s, M &m, int n, int k) { for (int i = 0; i < n; ++i) { int x = rnd(k); s.set(x); m.insert(x); } }
static bool good(ST &s, const M &m) { auto e = m.begin(); unsigned n = 0; for (auto it = s.begin(); it != s.end(); ++it, ++n, ++e) if (e == m.end() || *it != *e) return false; return n == m.size() && s.getSize() == n; }
"""
seed('set-sub-dangling-next', 'C04', [(ST, """				// Advance both nodes and remove common item
				it = tree.removeNode(it);
				jt = jt->next;""", """				// Advance both nodes and remove common item
				NodeT * node = it;
				it = it->next;
				jt = jt->next;
				tree.removeNode(node);""")], SETH + """int main() { for (int r = 0; r < 500; ++r) { ST a, b; M x, y, z; fill(a, x, rnd(30), 20); fill(b, y, rnd(30), 20); a -= b; for (int v : x) if (!y.count(v)) z.insert(v); OK(good(a, z)); } return 0; }
""", 'subtracting when a common element sits in a node with two children', 'the node that is continued from is the one that was released', flags='-fsanitize=address', srcs=TREES)
seed('set-remove-value-late', 'C04', [(ST, """			// Set out value and return removed
			outValue = move(node->data);
			return tree.removeNode(node), true;""", """			// Remove node first, its storage is handed out
			const bool two = node->left && node->right;
			if (!two) outValue = move(node->data);
			tree.removeNode(node);
			if (two) outValue = move(node->data);
			return true;""")], SETH + """int main() { ST s; for (int i : {4, 2, 6, 1, 3, 5, 7}) s.set(i); int o = 0; OK(s.remove(1, o) && o == 1); OK(s.remove(4, o) && o == 4); return 0; }
""", 'taking out the element of a node with two children', 'the caller gets the next element instead', srcs=TREES)
seed('set-ge-by-size', 'C04', [(ST, """		return !jt;
	}

	/**
	 * This operator returns true if this
	 * set is strictly""", """		return !jt || tree.getNumNodes() > other.tree.getNumNodes();
	}

	/**
	 * This operator returns true if this
	 * set is strictly""")], SETH + """int main() { ST a, b; a.set(1); a.set(2); a.set(3); b.set(1); b.set(7); OK(!(a >= b)); OK(a >= a && !(b >= a)); return 0; }
""", 'a set that ends before the last element of a smaller set', 'it is said to contain that element', srcs=TREES)


MP = C + 'containers/map.h'
MAPH = H + """#include <stdio.h>
#include "containers/map.h"
#include <map>
struct MK { int v; MK(int x) : v(x) {} MK(const MK &o) : v(o.v) {} MK(MK &&o) : v(o.v) { o.v = -1; } MK &operator=(const MK &o) { v = o.v; return *this; } MK &operator=(MK &&o) { int x = o.v; o.v = -1; v = x; return *this; } };
struct CK { int32 operator()(const MK &a, const MK &b) const { return a.v < b.v ? -1 : a.v > b.v; } };
using MT = Map<MK, int, CK>; typedef std::map<int, int> M;
static unsigned sd = 7; static int rnd(int n) { sd = sd * 1103515245u + 12345u; return (sd >> 16) % n; }
static bool good(MT &s, const M &m) { auto e = m.begin(); unsigned n = 0; for (auto it = s.begin(); it != s.end(); ++it, ++n, ++e) if (e == m.end() || it->first.v != e->first || it->second != e->second) return false; return n == m.size() && s.getSize() == n; }
"""
seed('map-index-count', 'C02', [(MP, """			tree.numNodes++;

			// Create and insert node.""", """			// Create and insert node."""), (MP, """			tree.root = tree.root->getRoot();

			return node->data.second;""", """			NodeT * newRoot = tree.root->getRoot();
			if (newRoot == tree.root)
				tree.numNodes++;
			else
				tree.root = newRoot;

			return node->data.second;""")], MAPH + """int main() { MT m; M r; for (int i = 0; i < 200; ++i) { int k = rnd(100); m[MK(k)] = i; r[k] = i; OK(good(m, r)); } return 0; }
""", 'adding a key by operator[] when the rebalancing moves the root', 'the size no longer counts that key', srcs=TREES)
seed('map-index-moved-key', 'C02', [(MP, """			// Traverse tree
			typename TreeT::NodeT * next = tree.root, * prev;""", """			// Traverse tree
			PairT pair{forward<KeyAnyT>(key), ValT{}};
			typename TreeT::NodeT * next = tree.root, * prev;"""), (MP, "auto node = prev->insert(tree.createNode(PairT{forward<KeyAnyT>(key), ValT{}}));", "auto node = prev->insert(tree.createNode(move(pair)));")], MAPH + """int main() { MT m; M r; for (int i = 0; i < 200; ++i) { int k = rnd(100); MK x(k); if (rnd(2)) m[x] = i; else m[MK(k)] = i; r[k] = i; OK(good(m, r)); } return 0; }
""", 'operator[] with a temporary key of a type that moving changes', 'the search compares the emptied key: an existing key is added again, at the wrong place', srcs=TREES)
seed('map-pop-late', 'C02', [(MP, """		// Copy out value
		outVal = move(node->data.second);

		// Remove node
		tree.removeNode(node);
		return true;""", """		// Remove node and copy out value; only
		// a node with both children survives
		if (!node->left || !node->right) outVal = move(node->data.second);
		if (tree.removeNode(node) == node) outVal = move(node->data.second);
		return true;""")], MAPH + """int main() { MT m; M r; for (int i : {4, 2, 6, 1, 3, 5, 7}) { m.insert(MK(i), i * 10); r[i] = i * 10; } int o = 0; OK(m.pop(MK(1), o) && o == 10); r.erase(1); OK(m.pop(MK(6), o) && o == 60); r.erase(6); OK(good(m, r)); return 0; }
""", 'popping a key whose node has two children', 'the value of the next key comes out (and is moved from)', srcs=TREES)

if __name__ == '__main__':
    import os
    for id, (a, k) in S.items():
        if len(sys.argv) > 1 and id not in sys.argv[1:]: continue
        if len(sys.argv) == 1 and os.path.exists('/verif/seeded/%s/meta.json' % id): continue
        mk(id, *a, **k)
