"""Contracts for MemoryPool / MallocPool (hal/malloc_pool.h, private/hal/malloc_pool.cpp).

Ghost state of a pool with N blocks: fr[0..N) enumerates the blocks, pos is its inverse; fr[0..F) are the free blocks in the
order of the free list (top of the stack last), fr[F..N) the blocks handed out.  The invariant says the embedded list is
exactly that stack, all blocks lie in the buffer, are aligned, and are pairwise disjoint including their link word."""
from speclib import *
UNIT = 'pool.cpp'
KEEP = (r'GenericPlatformMath::align2Up<',)
LIM = 1 << 62
RAW = ('raw', 'ptr')
MULT = Function('multiple', I, I, BoolSort())       # multiple(a, x): x is a multiple of a

class PS(Spec):
    fresh = False
    base_fld = None
    def setup(s, ex):
        s.objects = []
        a = ex.args[0]
        q = ex.typed(a.base, s.unit.structs[s.base_fld or 'Pool']); ex.args[0] = q; ex.S.regs[ex.f.params[0][1]] = q
        ex.assume(q.addr() > 0); s.obj = q.addr()
        s.off = s.unit.poff if s.base_fld else 0
        s.p = s.obj + s.off if s.off else s.obj
        ex.setg('fr', Const('fr0', AI)); ex.setg('pos', Const('pos0', AI))
        ex.setg('freed', IntVal(0))
        if not s.fresh:
            for n, f in s.PI(ex): ex.assume(f)
            ex.assume(Or(s.p + 4096 < s.r(ex, 'buffer'), s.r(ex, 'buffer') + s.r(ex, 'bsize') < s.p))
        s.pre(ex)
    def pre(s, ex): pass
    def r(s, ex, f, S=None): return s.rd(ex, 'Pool.' + f, s.p, S)
    def raw(s, ex, S=None):
        m = ex.mem(RAW, I, S)
        if is_app_of(m, Z3_OP_STORE):       # name it, so that it can appear in patterns
            c = fresh('rawm', AI); ex.assume(c == m); return c
        return m
    def PI(s, ex, S=None):
        S = S or ex.S; g = S.ghost; fr, pos = g['fr'], g['pos']; R = lambda f: s.r(ex, f, S)
        A = lambda i: Select(fr, i); B, Z, N, F, sz, L = R('buffer'), R('bsize'), R('num'), R('free'), R('size'), R('lsize'); m = s.raw(ex, S)
        yield 'free count is between 0 and the number of blocks', And(0 <= F, F <= N, N < (1 << 32))
        yield 'own-buffer flag is a truth value', And(0 <= R('own'), R('own') <= 1)
        yield 'a logical block holds the block and its link', And(sz >= 0, L >= sz + 8, L < LIM)
        yield 'buffer covers all blocks', And(B >= 0, Implies(N > 0, B > 0), Z == N * L, Z >= 0, B + Z < LIM)
        yield 'blocks are distinct', forall(['i'], lambda i: Implies(And(0 <= i, i < N), And(Select(pos, A(i)) == i, A(i) > 0)), lambda i: [A(i)])
        yield 'blocks lie in the buffer', forall(['i'], lambda i: Implies(And(0 <= i, i < N), And(B <= A(i), A(i) + L <= B + Z)), lambda i: [A(i)])
        yield 'blocks are aligned', forall(['i'], lambda i: Implies(And(0 <= i, i < N), MULT(R('align'), A(i))), lambda i: [A(i)])
        yield 'blocks do not overlap', forall(['i', 'j'], lambda i, j: Implies(And(0 <= i, i < N, 0 <= j, j < N, i != j), Or(A(i) + L <= A(j), A(j) + L <= A(i))), lambda i, j: [(A(i), A(j))])
        yield 'head is the top free block', R('head') == If(F > 0, A(F - 1), IntVal(0))
        yield 'links chain the free blocks', forall(['i'], lambda i: Implies(And(0 <= i, i < F), Select(m, A(i) + sz) == If(i > 0, A(i - 1), IntVal(0))), lambda i: [A(i)])
    CONST = ('buffer', 'own', 'num', 'size', 'align', 'lsize', 'bsize')
    def keep(s, ex, fields=CONST):
        for f in fields: s.ens(ex, 'pool %s unchanged' % f, s.r(ex, f) == s.r(ex, f, ex.S0))
    def inv_post(s, ex):
        for n, f in s.PI(ex): s.ens(ex, n, f)
    def inbuf(s, ex, x, S=None): return And(s.r(ex, 'buffer', S) <= x, x + 8 <= s.r(ex, 'buffer', S) + s.r(ex, 'bsize', S))
    def frame(s, ex, rel=None):
        """memory outside the buffer, and the first blockSize bytes of every block in use, keep their contents"""
        m0, m = s.raw(ex, ex.S0), s.raw(ex)
        g0 = ex.S0.ghost; sz = s.r(ex, 'size', ex.S0); F, N = s.r(ex, 'free', ex.S0), s.r(ex, 'num', ex.S0)
        if m is m0: return
        s.ens(ex, 'frame: memory outside the pool unchanged', forall(['x'], lambda x: Implies(Not(s.inbuf(ex, x, ex.S0)), Select(m, x) == Select(m0, x)), lambda x: [Select(m, x)]))
        s.ens(ex, 'frame: contents of blocks in use unchanged', forall(['i', 'd'], lambda i, d: Implies(And(F <= i, i < N, 0 <= d, d + 8 <= sz), Select(m, Select(g0['fr'], i) + d) == Select(m0, Select(g0['fr'], i) + d)), lambda i, d: [Select(m, Select(g0['fr'], i) + d)]))
    def valid(s, ex, p, key, idx, size, how):
        if key == ('raw', 'vtable'): return None
        if key == RAW and ex.cur.op in ('load', 'store'):
            return And(s.inbuf(ex, idx), BoolVal(size == 8))
        return Or(*[And(o <= idx, idx < o + 512) for o in [s.obj]])
    def callee(s, ex, dem, name):
        if 'align2Up<' in dem: return s.align2Up
        if name == 'posix_memalign': return s.memalign
        if name == 'free': return s.cfree
        return super().callee(ex, dem, name)
    def align2Up(s, ex, args, ins):
        """contract proved in num.py (C19): smallest multiple of the power of two a greater than n"""
        n, a = args; r = fresh('up', I)
        ex.oblige('align2Up: the alignment is a power of two, no overflow', And(a > 0, n + a < (1 << 64)), 'precondition')
        ex.assume(And(r > n, r <= n + a, MULT(a, r)))
        return r
    def memalign(s, ex, args, ins):
        """assumed: the system allocation succeeds and returns fresh memory at the alignment"""
        pp, a, n = args; b = fresh('buf', I)
        ex.assume(And(b > 0, b + n < LIM, MULT(a, b), Or(s.obj + 4096 < b, b + n < s.obj)))
        ex.S.log.append(('memalign', b, a, n))
        key, idx = ex.region(pp, PTR, None)
        ex.S.mem[key] = Store(ex.mem(key, I), idx, b)
        return IntVal(0)
    def cfree(s, ex, args, ins):
        ex.S.log.append(('free', args[0].addr())); return None

class Ctor(PS):
    fresh = True
    def pre(s, ex):
        if s.name == 'mpool_inline': s.n, s.s, s.a, s.b = IntVal(7), IntVal(24), IntVal(16), ex.args[1].addr()
        else: s.n, s.s, s.a, b = ex.args[1:5]; s.b = b.addr()
        s.A = If(s.a > 8, s.a, IntVal(8))
        ex.assume(And(s.b >= 0, s.s < (1 << 40), s.a < (1 << 40), s.a > 0))
        # a buffer given by the caller is aligned and large enough
        s.L = Int('Lsz')
        ex.assume(Implies(s.b > 0, And(MULT(s.A, s.b), s.b + s.n * (s.s + 8 + s.A) < LIM)))
        ex.assume(s.n * (s.s + 8 + s.A) < LIM); ex.setg('k', IntVal(0))
        ex.assume(Implies(s.b > 0, Or(s.obj + 4096 < s.b, s.b + s.n * (s.s + 8 + s.A) < s.obj)))
        s.AT = Function('AT', I, I)
    def facts(s, ex):
        """blocks at B + i*L; the induction-free consequences of AT(i) = B + i*L are proved as lemmas below"""
        B, L, N, Z, A = [s.r(ex, f) for f in ('buffer', 'lsize', 'num', 'bsize', 'align')]; AT = s.AT
        i, j, l, b, p, q = Ints('li lj ll lb lp lq')
        def lemma(name, f):
            sv = ex.S.pc; ex.S.pc = []; ex.oblige(name, f, 'lemma', then_assume=False); ex.S.pc = sv
        lemma('lemma: i < j, L > 0 implies B + i*L + L <= B + j*L', Implies(And(i < j, l > 0), b + i * l + l <= b + j * l))
        lemma('lemma: (i+1)*L = i*L + L', (i + 1) * l == i * l + l)
        lemma('lemma: the sum of multiples is a multiple', p * l + q * l == (p + q) * l)
        ex.assume(AT(0) == B); ex.assume(AT(N) == B + N * L)
        ex.assume(forall(['i', 'j'], lambda i, j: Implies(i < j, AT(i) + L <= AT(j)), lambda i, j: [(AT(i), AT(j))]))
        # by induction over the third lemma: B and L are multiples of the alignment, so is every B + i*L
        ex.oblige('buffer and logical block size are multiples of the alignment', And(Or(N == 0, MULT(A, B)), MULT(A, L)), 'lemma')
        ex.assume(forall(['i'], lambda i: Implies(And(0 <= i, N > 0), MULT(A, AT(i))), lambda i: [AT(i)]))
    def loop_entry(s, ex, L):
        s.facts(ex)
    def havoc_hook(s, ex, L):
        k = ex.S.ghost['k']
        ex.assume(s.AT(k + 1) == s.AT(k) + s.r(ex, 'lsize'))
    def loop_step(s, ex, L): ex.setg('k', ex.S.ghost['k'] + 1)
    def inv(s, ex, L):
        k = ex.S.ghost['k']; AT = s.AT; R = lambda f: s.r(ex, f); m = s.raw(ex)
        yield 'k range', And(0 <= k, k <= R('num'))
        yield 'k range+', 0 <= k
        yield 'head = AT(k)', R('head') == AT(k)
        for r, v in L.pphis:
            yield 'phi %s = AT(k)' % r, v.addr() == AT(k)
            yield 'phi %s is the last link' % r, v.addr() == If(k > 0, AT(k - 1) + R('size'), IntVal(0))
        for r, v, n in L.iphis: yield 'phi %s = k' % r, v == k
        yield 'links so far', forall(['i'], lambda i: Implies(And(0 <= i, i < k), Select(m, AT(i) + R('size')) == AT(i + 1)), lambda i: [AT(i)])
        yield 'links so far but last', forall(['i'], lambda i: Implies(And(0 <= i, i < k - 1), Select(m, AT(i) + R('size')) == AT(i + 1)), lambda i: [AT(i)])
        yield 'frame', forall(['x'], lambda x: Implies(Not(s.inbuf(ex, x)), Select(m, x) == Select(s.raw(ex, L.entry.S if hasattr(L.entry, 'S') else L.entry), x)), lambda x: [Select(m, x)])
    def post(s, ex, ret):
        R = lambda f: s.r(ex, f); AT = s.AT; N = R('num')
        if not any(k == 'A' for k in ()):
            if not ex.loops: s.facts(ex)
        ex.assume(s.AT(N) == s.AT(N - 1) + R('lsize'))        # defining equation of AT at N-1
        ex.setg('fr', defarr(ex, 'fr', lambda i: AT(N - 1 - i)))
        pos = fresh('pos', AI)
        fr = ex.S.ghost['fr']
        # the inverse exists because AT is strictly increasing
        ex.assume(forall(['i'], lambda i: Implies(And(0 <= i, i < N), Select(pos, Select(fr, i)) == i), lambda i: [Select(fr, i)]))
        ex.setg('pos', pos)
        s.ens(ex, 'as many blocks as requested, all free', And(N == s.n, R('free') == s.n))
        s.ens(ex, 'block size as requested', R('size') == s.s)
        s.ens(ex, 'block alignment at least as requested', R('align') == s.A)
        al = [e for e in ex.S.log if e[0] == 'memalign']
        s.ens(ex, 'a buffer is allocated exactly when none is given', (s.b == 0) == BoolVal(len(al) == 1) if len(al) <= 1 else BoolVal(False))
        s.ens(ex, 'own-buffer flag', R('own') == If(s.b == 0, IntVal(1), IntVal(0)))
        if al: s.ens(ex, 'the allocated buffer is used and large enough', And(R('buffer') == al[0][1], al[0][3] >= R('bsize')))
        else: s.ens(ex, 'the given buffer is used', R('buffer') == s.b)
        s.inv_post(ex)

class Acquire(PS):
    def post(s, ex, ret):
        s.acq(ex, ret.addr(), BoolVal(True)); s.tail(ex)
    def tail(s, ex):
        s.inv_post(ex); s.keep(ex); s.frame(ex)
    def acq(s, ex, r, may):
        g0 = ex.S0.ghost; F0 = s.r(ex, 'free', ex.S0); F = s.r(ex, 'free')
        get = And(F0 > 0, may)
        s.ens(ex, 'a free block is handed out exactly when there is one', And(Implies(get, And(r == Select(g0['fr'], F0 - 1), F == F0 - 1)), Implies(Not(get), And(r == 0, F == F0))))

class Release(PS):
    def pre(s, ex):
        s.b = ex.args[1].addr(); g = ex.S.ghost; k = Select(g['pos'], s.b)
        s.inuse = And(s.r(ex, 'free') <= k, k < s.r(ex, 'num'), Select(g['fr'], k) == s.b)
        s.k = k
        s.pre2(ex)
    def pre2(s, ex): ex.assume(s.inuse)
    def swap(s, ex):
        """the released block becomes the top of the free stack"""
        g = ex.S0.ghost; fr, pos = g['fr'], g['pos']; F0 = s.r(ex, 'free', ex.S0); k = s.k; o = Select(fr, F0)
        ex.setg('fr', Store(Store(fr, k, o), F0, s.b)); ex.setg('pos', Store(Store(pos, o, k), s.b, F0))
    def post(s, ex, ret):
        s.swap(ex)
        s.ens(ex, 'one more free block', s.r(ex, 'free') == s.r(ex, 'free', ex.S0) + 1)
        s.ens(ex, 'the released block is free', And(Select(ex.S.ghost['fr'], s.r(ex, 'free') - 1) == s.b))
        s.inv_post(ex); s.keep(ex)
        m0, m = s.raw(ex, ex.S0), s.raw(ex); g0 = ex.S0.ghost; sz = s.r(ex, 'size', ex.S0); F, N = s.r(ex, 'free', ex.S0), s.r(ex, 'num', ex.S0)
        s.ens(ex, 'frame: memory outside the pool unchanged', forall(['x'], lambda x: Implies(Not(s.inbuf(ex, x, ex.S0)), Select(m, x) == Select(m0, x)), lambda x: [Select(m, x)]))
        s.ens(ex, 'frame: contents of the other blocks in use unchanged', forall(['i', 'd'], lambda i, d: Implies(And(F <= i, i < N, i != s.k, 0 <= d, d + 8 <= sz), Select(m, Select(g0['fr'], i) + d) == Select(m0, Select(g0['fr'], i) + d)), lambda i, d: [Select(m, Select(g0['fr'], i) + d)]))

class Getter(PS):
    def __init__(s, n, u, e): super().__init__(n, u); s.e = e
    def post(s, ex, ret):
        s.ens(ex, 'result', ret == s.e(s, ex)); s.inv_post(ex); s.keep(ex); s.keep(ex, ('free', 'head')); s.frame(ex)
        # client writes inside a block handed out keep the invariant
        g = ex.S.ghost; m = s.raw(ex); m2 = Const('mclient', AI); i = Int('iu'); sz = s.r(ex, 'size'); b = Select(g['fr'], i)
        sv = list(ex.S.pc); svm = ex.S.mem[RAW]
        ex.assume(And(s.r(ex, 'free') <= i, i < s.r(ex, 'num')))
        ex.assume(forall(['x'], lambda x: Implies(Or(x + 8 <= b, x >= b + sz), Select(m2, x) == Select(m, x)), lambda x: [Select(m2, x)]))
        ex.S.mem[RAW] = m2
        for n, f in s.PI(ex):
            if 'link' in n and 'logical' not in n: ex.oblige('writing inside a block handed out keeps: ' + n, f, 'lemma')
        ex.S.pc = sv; ex.S.mem[RAW] = svm

class Dtor(PS):
    def post(s, ex, ret):
        fr = [e for e in ex.S.log if e[0] == 'free']; own = s.r(ex, 'own', ex.S0) == 1
        if fr: s.ens(ex, 'only an own buffer is released', And(s.r(ex, 'own', ex.S0) != 0, fr[0][1] == s.r(ex, 'buffer', ex.S0), BoolVal(len(fr) == 1)))
        else: s.ens(ex, 'an own buffer is released', s.r(ex, 'own', ex.S0) == 0)

class MAlloc(Acquire):
    base_fld = 'MPool'
    def post(s, ex, ret):
        sz, al = ex.args[1:3]
        s.acq(ex, ret.addr(), And(sz <= s.r(ex, 'size', ex.S0), al <= s.r(ex, 'align', ex.S0))); s.tail(ex)

class MFree(Release):
    base_fld = 'MPool'
    def pre2(s, ex):
        # a block in use, or a pointer that is not the pool's (ignored)
        ex.assume(Or(s.inuse, Not(And(s.r(ex, 'buffer') <= s.b, s.b < s.r(ex, 'buffer') + s.r(ex, 'bsize')))))
    def post(s, ex, ret):
        if ex.proves(s.inuse): Release.post(s, ex, ret)
        else:
            s.ens(ex, 'a foreign pointer is ignored', And(Not(s.inuse), s.r(ex, 'free') == s.r(ex, 'free', ex.S0))); s.inv_post(ex); s.keep(ex)

class MRealloc(MFree):
    def post(s, ex, ret):
        sz = ex.args[2]
        r = ret.addr() if isinstance(ret, Ptr) else ret
        s.ens(ex, 'a block of the pool is kept when the size fits, otherwise null is returned', Implies(s.inuse, r == If(sz <= s.r(ex, 'size', ex.S0), s.b, IntVal(0))))
        s.ens(ex, 'nothing is acquired or released', s.r(ex, 'free') == s.r(ex, 'free', ex.S0)); s.inv_post(ex); s.keep(ex); s.frame(ex)

class Logical(Spec):
    """computeLogicalBlockSize: multiple of the alignment, holds block and link, no more than one alignment of padding"""
    objects = ()
    align2Up = PS.align2Up
    def callee(s, ex, dem, name): return s.align2Up if 'align2Up<' in dem else super().callee(ex, dem, name)
    def setup(s, ex): ex.assume(And(ex.args[1] > 0, ex.args[0] < (1 << 40), ex.args[1] < (1 << 40)))
    def post(s, ex, r):
        n, a = ex.args[:2]
        s.ens(ex, 'holds block and link', r >= n + 8); s.ens(ex, 'padding below one alignment', r < n + 8 + a); s.ens(ex, 'multiple of the alignment', MULT(a, r))

def contracts(u):
    C = {}
    # offset of the pool inside MallocPool
    st = u.mod.types[u.structs['MPool']]
    u.poff = None
    for b in u.fn('mpool_pool').blocks.values():
        for i in b.insts:
            if i.op == 'gep':
                t = i.ty; off = 0
                for _, v in i.args[2:]: off += field_off(t, v.v); t = t.fs[v.v]
                u.poff = off
    for n in ('pool_ctor', 'mpool_ctor', 'mpool_inline'):
        C[n] = Ctor(n, u)
        if n != 'pool_ctor': C[n].base_fld = 'MPool'
    C['pool_acquire'] = Acquire('pool_acquire', u); C['pool_release'] = Release('pool_release', u)
    C['pool_dtor'] = Dtor('pool_dtor', u)
    C['pool_numFree'] = Getter('pool_numFree', u, lambda s, ex: s.r(ex, 'free', ex.S0))
    C['pool_exhausted'] = Getter('pool_exhausted', u, lambda s, ex: s.r(ex, 'free', ex.S0) == 0)
    C['pool_hasBlock'] = Getter('pool_hasBlock', u, lambda s, ex: And(s.r(ex, 'buffer') <= ex.args[1].addr(), ex.args[1].addr() < s.r(ex, 'buffer') + s.r(ex, 'bsize')))
    C['pool_computeLogical'] = Logical('pool_computeLogical', u)
    for n, c in (('mpool_alloc', MAlloc), ('mpool_free', MFree), ('mpool_realloc', MRealloc)): C[n] = c(n, u)
    return C
