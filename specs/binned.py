"""Contracts for MallocBinned (hal/malloc_binned.h, private/hal/malloc_binned.cpp).

The growing pools behind the buckets are used through their contract (C11) only: ghost `con` (constructed pools), `bs`/`ba` (their
block size and alignment), `rng` (which pool an address lies in), `own` (which pool a block in use belongs to).
Bucket i holds blocks of 2^E(i) bytes, E(i) = log2 min + i * log2 increment; P2 is the power of two."""
from speclib import *
UNIT = 'binned.cpp'
KEEP = (r'GenericPlatformMath::log2<', r'^MallocBinned::getBucketIdx\(', r'^MallocBinned::MallocBinned\(')
RAW = ('raw', 'ptr')
P2 = Function('P2', I, I)
E = Function('E', I, I)
class BS(Spec):
    scale = {RAW: 8}; elemsz = (8,)
    @property
    def pscale(s): return {s.unit.fields['Binned.buf']: 8}
    fresh = False
    def setup(s, ex):
        s.heap(ex)
        for n, so in (('con', AB), ('bs', AI), ('ba', AI), ('rng', AI), ('own', AI), ('tab', AB)): ex.setg(n, Const(n + '0', so))
        g = ex.S.ghost
        ex.assume(forall(['p'], lambda p: Implies(Select(g['con'], p), And(Select(g['alive'], p), p > 0)), lambda p: [Select(g['con'], p)]))
        ex.assume(forall(['x'], lambda x: Implies(Select(g['own'], x) != 0, And(x > 0, Select(g['rng'], x) == Select(g['own'], x))), lambda x: [Select(g['own'], x)]))
        ex.assume(forall(['x'], lambda x: Implies(x <= 0, Select(g['rng'], x) == 0), lambda x: [Select(g['rng'], x)]))
        ex.assume(forall(['x'], lambda x: Implies(Select(g['rng'], x) != 0, And(Select(g['con'], Select(g['rng'], x)))), lambda x: [Select(g['rng'], x)]))
        s.pow2(ex)
        a = ex.args[0]; q = ex.typed(a.base, s.unit.structs['Binned']); ex.args[0] = q; ex.S.regs[ex.f.params[0][1]] = q
        ex.assume(q.addr() > 0); s.obj = q.addr(); s.objects = [s.obj]
        s.lm, s.li, s.lM = Ints('lmin linc lmax')
        ex.assume(And(s.lm >= 0, s.li >= 1, E(0) == s.lm)); ex.setg('k', IntVal(0))
        if not s.fresh:
            for n, f in s.BI(ex): ex.assume(f)
        s.pre(ex)
    def pre(s, ex): pass
    def pow2(s, ex):
        """facts about powers of two"""
        ex.assume(And(P2(0) == 1, P2(31) == 1 << 31, P2(32) == 1 << 32, P2(64) == 1 << 64))
        ex.assume(forall(['a', 'b'], lambda a, b: Implies(And(a >= 0, a < b), 2 * P2(a) <= P2(b)), lambda a, b: [(P2(a), P2(b))]))
        ex.assume(forall(['a'], lambda a: Implies(a >= 0, P2(a) >= 1), lambda a: [P2(a)]))
    def r(s, ex, f, S=None): return s.rd(ex, 'Binned.' + f, s.obj, S)
    def bk(s, ex, i, S=None): return Select(ex.mem(RAW, I, S), s.b8(ex, S) + i)
    def b8(s, ex, S=None): return s.r(ex, 'buf', S)      # element index of the table
    def CFG(s, ex, S=None):
        R = lambda f: s.r(ex, f, S); N = R('num')
        yield 'sizes are powers of two', And(R('min') == P2(s.lm), R('inc') == P2(s.li), N >= 1, N < 64)
        yield 'bucket sizes stay below 2^32', And(E(N) <= 31, P2(E(N - 1)) <= R('psize'))
    def BI(s, ex, S=None, upto=None):
        S = S or ex.S; R = lambda f: s.r(ex, f, S); g = S.ghost; N = R('num'); m = ex.mem(RAW, I, S); b8 = s.b8(ex, S)
        for x in s.CFG(ex, S): yield x
        K = N if upto is None else upto
        yield from s.BK(ex, S, K)
    def BK(s, ex, S, K):
        R = lambda f: s.r(ex, f, S); g = S.ghost; m = ex.mem(RAW, I, S); b8 = s.b8(ex, S)
        if is_app_of(m, Z3_OP_STORE):
            c = fresh('bk', AI); ex.assume(c == m); m = c; S.mem[RAW] = c
        B = fresh('b8', I); ex.assume(B == b8)
        at = lambda q: Select(m, q); inr = lambda q: And(B <= q, q < B + K)
        yield 'the bucket table is a live buffer of its own', And(Select(g['tab'], R('buf')), R('buf') > 0, R('cap') >= R('num'), R('cap') < (1 << 32))
        yield 'as many buckets in the table', R('count') == K
        yield 'every bucket is a constructed pool', forall(['q'], lambda i: Implies(inr(i), And(Select(g['con'], at(i)), Select(g['alive'], at(i)), at(i) > 0)), lambda i: [at(i)])
        yield 'bucket i holds blocks of min*increment^i', forall(['q'], lambda i: Implies(inr(i), Select(g['bs'], at(i)) == P2(E(i - B))), lambda i: [at(i)])
        yield 'buckets have the pool alignment', forall(['q'], lambda i: Implies(inr(i), Select(g['ba'], at(i)) == R('align')), lambda i: [at(i)])
        yield 'buckets are distinct', forall(['i', 'j'], lambda i, j: Implies(And(inr(i), inr(j), i < j), at(i) != at(j)), lambda i, j: [(at(i), at(j))])
    def inv_post(s, ex):
        for n, f in s.BI(ex): s.ens(ex, n, f)
    def objs_now(s, ex): return [s.obj]
    def valid(s, ex, p, key, idx, size, how):
        if key == ('raw', 'vtable'): return None
        if key == RAW:
            b = s.b8(ex); return And(b <= idx, idx < b + s.r(ex, 'cap'))
        return Or(*[And(o <= idx, idx < o + 512) for o in s.objects])
    def callee(s, ex, dem, name):
        if 'log2<' in dem: return s.log2
        if 'getBucketIdx(' in dem: return s.idx
        if dem.startswith('operator new('): return s.opnew
        if dem.startswith('MallocPooled::MallocPooled('): return s.pctor
        if dem.startswith('MallocPooled::hasBlock('): return s.phas
        if dem.startswith('MallocPooled::alloc('): return s.palloc
        if dem.startswith('MallocPooled::free('): return s.pfree
        return super().callee(ex, dem, name)
    def vcall(s, ex, slot):
        sl = s.unit.slots
        def disp(pool, base):
            # the receiver decides: a pool of a bucket, or the allocator of the bucket table
            def f(ex, a, ins):
                p = a[0].addr()
                if ex.proves(Select(ex.S.ghost['con'], p)): return pool(ex, a, ins)
                ex.oblige('a virtual call on a live pool or on the global allocator', p == s.r(ex, 'malloc'), 'memory')
                return base(ex, a, ins)
            return f
        if slot == sl.get('alloc'): return disp(s.palloc, s.malloc_alloc)
        if slot == sl.get('free'): return disp(s.pfree, s.malloc_free)
        if slot == sl.get('dtor'): return s.pdtor
        return None
    def malloc_alloc(s, ex, args, ins):
        n = ex.exdiv(args[1], 8); q = fresh('tab', I); g = ex.S.ghost
        ex.oblige('alignment of the table', args[2] == 8, 'memory'); ex.assume(And(q > 0, Not(Select(g['tab'], q))))
        ex.setg('tab', Store(g['tab'], q, BoolVal(True))); s.tsize = n
        return Ptr(8 * q)
    def malloc_free(s, ex, args, ins):
        q = ex.exdiv(args[1].addr(), 8); g = ex.S.ghost
        ex.oblige('free() is given the live table', Select(g['tab'], q), 'memory'); ex.setg('tab', Store(g['tab'], q, BoolVal(False)))
    def idx(s, ex, a, ins):
        """contract of Idx"""
        ex.oblige('the bucket of a size of at least one byte is asked for', And(a[0].addr() == s.obj, a[1] >= 1), 'precondition')
        r = fresh('idx', I); ex.assume(And(r < (1 << 32), s.fits(ex, r, a[1]))); return r
    def log2(s, ex, a, ins):
        """contract proved in num.py (C19)"""
        n, r = a[0], fresh('lg', I)
        ex.assume(And(r >= 0, r < 64, Implies(n == 0, r == 0), Implies(n > 0, And(P2(r) <= n, n < P2(r + 1)))))
        # consequences for the configured exponents (proved, to save quantifier instances later)
        for e in (s.lm, s.li, s.lM):
            if e is s.lM and not s.fresh: continue
            ex.oblige('lemma: log2 compares with the exponents of the configuration', Implies(And(n > 0, e >= 0), And((P2(e) <= n) == (e <= r), Implies(n == P2(e), r == e))), 'lemma')
        return r
    def opnew(s, ex, a, ins):
        g = ex.S.ghost; p = fresh('pool', I)
        ex.assume(And(p > 0, Not(Select(g['alive'], p)), Not(Select(g['con'], p)), p != s.obj)); ex.setg('alive', Store(g['alive'], p, BoolVal(True))); ex.setg('bsize', Store(g['bsize'], p, a[0]))
        return Ptr(p)
    def pctor(s, ex, a, ins):
        p, n, z, al, k = a[0].addr(), a[1], a[2], a[3], a[4]; g = ex.S.ghost
        ex.oblige('a pool is constructed in fresh memory', And(Select(g['alive'], p), Not(Select(g['con'], p))), 'memory')
        ex.oblige('a pool has at least one block, and an initial pool', And(n >= 1, k >= 1), 'precondition')
        ex.setg('con', Store(g['con'], p, BoolVal(True))); ex.setg('bs', Store(g['bs'], p, z)); ex.setg('ba', Store(g['ba'], p, If(al > 8, al, IntVal(8))))
        return None
    def pdtor(s, ex, a, ins):
        p = a[0].addr(); g = ex.S.ghost
        ex.oblige('a live pool is destroyed (once)', Select(g['con'], p), 'lifetime')
        ex.setg('con', Store(g['con'], p, BoolVal(False))); ex.setg('alive', Store(g['alive'], p, BoolVal(False)))
        return None
    def phas(s, ex, a, ins):
        p, x = a[0].addr(), a[1].addr(); g = ex.S.ghost
        ex.oblige('hasBlock of a live pool', Select(g['con'], p), 'memory')
        return Select(g['rng'], x) == p
    def palloc(s, ex, a, ins):
        """a fresh block of the pool exactly when size and alignment are within its blocks (contract of C11)"""
        p, z, al = a[0].addr(), a[1], a[2]; g = ex.S.ghost
        r, b = fresh('blk', I), fresh('b', I); nr, no = fresh('rng', AI), fresh('own', AI); fit = And(z <= Select(g['bs'], p), al <= Select(g['ba'], p))
        ex.assume(And(b > 0, Select(g['own'], b) == 0, r == If(fit, b, IntVal(0)), no == If(fit, Store(g['own'], b, p), g['own'])))
        ex.assume(forall(['x'], lambda x: Implies(Select(g['rng'], x) != 0, Select(nr, x) == Select(g['rng'], x)), lambda x: [Select(nr, x)]))
        ex.assume(forall(['x'], lambda x: Or(Select(nr, x) == Select(g['rng'], x), And(fit, Select(nr, x) == p)), lambda x: [Select(nr, x)]))
        ex.assume(Implies(fit, Select(nr, b) == p))
        ex.setg('rng', nr); ex.setg('own', no); ex.S.log.append(('palloc', p, z, r, b, fit))
        return Ptr(r)
    def pfree(s, ex, a, ins):
        p, x = a[0].addr(), a[1].addr(); g = ex.S.ghost
        ex.oblige('a block is released to the pool it came from (or is not of the pool at all)', Or(Select(g['own'], x) == p, Select(g['rng'], x) != p), 'precondition')
        # a block that is not of the pool is ignored
        n = fresh('own', AI); ex.assume(n == If(Select(g['own'], x) == p, Store(g['own'], x, 0), g['own'])); ex.setg('own', n)
        ex.S.log.append(('pfree', p, x)); return None
    def keep(s, ex, but=()):
        for f in ('psize', 'min', 'max', 'inc', 'num', 'align', 'malloc', 'buf', 'count', 'cap'):
            if f not in but: s.ens(ex, 'frame: %s unchanged' % f, s.r(ex, f) == s.r(ex, f, ex.S0))
        for gn in ('con', 'bs', 'ba', 'alive', 'tab'): s.ens(ex, 'frame: no pool is created, changed or destroyed (%s)' % gn, ex.S.ghost[gn] == ex.S0.ghost[gn])
        if ex.S.mem.get(RAW) is not ex.S0.mem.get(RAW):
            i = fresh('i', I); s.ens(ex, 'frame: the bucket table is unchanged', Select(ex.mem(RAW), i) == Select(ex.mem(RAW, None, ex.S0), i))
    def fits(s, ex, i, z):
        """bucket i is the smallest that fits z"""
        return And(0 <= i, z <= P2(E(i)), Or(i == 0, P2(E(i - 1)) < z))
    def edef(s, ex, i):
        """definition of E at i"""
        ex.assume(Implies(i >= 0, E(i) == s.lm + s.li * i))

class Idx(BS):
    def pre(s, ex): s.z = ex.args[1]; ex.assume(s.z >= 1); ex.assume(s.r(ex, 'min') < (1 << 32))
    def post(s, ex, r):
        s.edef(ex, r); s.edef(ex, r - 1)
        s.ens(ex, 'the smallest bucket that fits', s.fits(ex, r, s.z)); s.keep(ex)

class Alloc(BS):
    def pre(s, ex):
        s.z, s.al = ex.args[1:3]; ex.assume(s.z >= 1)
        # E is increasing
        ex.assume(forall(['i', 'j'], lambda i, j: Implies(And(0 <= i, i < j), E(i) < E(j)), lambda i, j: [(E(i), E(j))]))
    def post(s, ex, ret):
        g, g0 = ex.S.ghost, ex.S0.ghost; r = fresh('ret', I); ex.assume(r == ret.addr()); N = s.r(ex, 'num', ex.S0); top = P2(E(N - 1)); A = s.r(ex, 'align', ex.S0)
        can = And(s.z <= top, s.al <= A)
        s.ens(ex, 'a block is returned exactly when the request is within the largest bucket and the alignment', (r != 0) == can)
        i = fresh('i', I); sv = list(ex.S.pc)
        b = s.bk(ex, i, ex.S0)
        ex.assume(And(s.fits(ex, i, s.z), i < N))
        s.ens(ex, 'the block is new and belongs to the smallest bucket that fits', Implies(r != 0, And(Select(g['own'], r) == b, Select(g0['own'], r) == 0)))
        s.ens(ex, 'that bucket has blocks of at least the requested size', Implies(r != 0, Select(g0['bs'], b) >= s.z))
        ex.S.pc = sv
        x = fresh('x', I)
        s.ens(ex, 'frame: all other blocks stay with their buckets', Implies(Or(x != r, r == 0), Select(g['own'], x) == Select(g0['own'], x)))
        s.ens(ex, 'bookkeeping: no address changes from one pool to another', Implies(Select(g0['rng'], x) != 0, Select(g['rng'], x) == Select(g0['rng'], x)))
        s.keep(ex); s.inv_post(ex)

class Free(BS):
    def pre(s, ex):
        s.o = ex.args[1].addr(); g = ex.S.ghost; ex.assume(s.o >= 0)
        s.i = Int('home'); b = s.bk(ex, s.i)
        # either a block of bucket `home`, or an address no bucket knows
        N = s.r(ex, 'num'); s.b8c = Int('b8'); ex.assume(s.b8c == s.b8(ex)); m = ex.mem(RAW)
        s.mine = And(0 <= s.i, s.i < N, Select(g['own'], s.o) == b)
        s.foreign = s.unk(ex, 0, N)
        s.isforeign = Bool('foreign'); ex.assume(If(s.isforeign, s.foreign, s.mine))
    def unk(s, ex, a, b):
        m = ex.mem(RAW); r = ex.S.ghost['rng']
        return forall(['j'], lambda j: Implies(And(s.b8c + a <= j, j < s.b8c + b), Select(r, s.o) != Select(m, j)), lambda j: [Select(m, j)])
    def inv(s, ex, L):
        g = ex.S.ghost; N = s.r(ex, 'num'); m = ex.mem(RAW); o = s.o
        for r, v, n in L.iphis:
            yield 'index range %s' % r, And(0 <= v, v <= N)
            yield 'buckets before %s do not know the block' % r, s.unk(ex, 0, v)
            yield 'buckets from %s do not know the block' % r, s.unk(ex, v, N)
    def post(s, ex, ret):
        g, g0 = ex.S.ghost, ex.S0.ghost; x = fresh('x', I); fr = [e for e in ex.S.log if e[0] == 'pfree']
        s.ens(ex, 'the block is returned to the bucket it came from, a foreign address is ignored', Select(g['own'], s.o) == If(s.isforeign, Select(g0['own'], s.o), IntVal(0)))
        for e in fr: s.ens(ex, 'released to its own bucket only', Or(s.isforeign, And(e[1] == s.bk(ex, s.i, ex.S0), e[2] == s.o)))
        s.ens(ex, 'frame: all other blocks stay in use', Implies(x != s.o, Select(g['own'], x) == Select(g0['own'], x)))
        s.keep(ex); s.inv_post(ex)

class Ctor(BS):
    fresh = True; mul_uf = True; houdini_timeout = 10000
    def pre(s, ex):
        ex.S.mem.setdefault(RAW, ex.mem(RAW, I))
        gm = s.gm = ex.global_ptr('gMalloc')
        s.N = Int('N')
        q = ex.args[1].addr(); ex.assume(And(q > 0, Or(q + 4096 < s.obj, s.obj + 4096 < q))); s.objects.append(q); s.al = ex.args[2]
        p = ex.typed(q, 'struct.MallocBinned::BucketInfo'); ex.args[1] = p; ex.S.regs[ex.f.params[1][1]] = p
        s.rdi = lambda f: Select(s.f(ex, 'Binned.' + f), q)
        s.ps = s.rdi('psize')
        for n, f in s.ctor_pre(s.rdi): ex.assume(f)
        ex.assume(forall(['i', 'j'], lambda i, j: Implies(And(0 <= i, i < j), E(i) < E(j)), lambda i, j: [(E(i), E(j))]))
    def ctor_pre(s, rd):
        yield 'sizes are powers of two below 2^32', And(rd('min') == P2(s.lm), rd('inc') == P2(s.li), rd('max') == P2(s.lM), s.lm >= 0, s.li >= 1, s.lM <= 31)
        # N = number of buckets: the sizes min*increment^i, i < N, are below the maximum, the next one is not (lm + li*N <= lM < lm + li*N + li)
        yield 'at least one bucket', And(s.N >= 1, s.N < 64, E(0) == s.lm, E(s.N) <= s.lM, s.lM < E(s.N) + s.li)
        yield 'a pool holds a block of the largest bucket', And(P2(E(s.N - 1)) <= rd('psize'), rd('psize') < (1 << 32))
    def step(s, ex):
        k = ex.S.ghost['k']; z, z1 = P2(E(k)), P2(E(k + 1)); inc = P2(s.li); N = s.N
        ex.assume(And(E(k + 1) == E(k) + s.li, z1 == vc.MULI(z, inc), z1 == vc.MULI(inc, z)))
        ex.oblige('lemma: bucket sizes below the largest', Implies(And(0 <= k, k < N), And(1 <= z, z <= P2(E(N - 1)), 1 <= z1, z1 <= P2(31))), 'lemma')
        for x in (z, z1): ex.oblige('lemma: at least one block', Implies(And(0 < x, x <= s.ps), s.ps / x >= 1), 'lemma')
    def loop_entry(s, ex, L):
        # number of buckets: by the definition E(N) = lm + li*N
        sv = list(ex.S.pc); ex.assume(E(s.N) == s.lm + s.li * s.N); f = s.r(ex, 'num') == s.N
        ex.oblige('number of buckets', f, 'lemma'); ex.S.pc = sv; ex.assume(f); s.step(ex)
    def havoc_hook(s, ex, L): s.step(ex)
    def loop_step(s, ex, L): ex.setg('k', ex.S.ghost['k'] + 1); s.step(ex)
    def inv(s, ex, L):
        k = ex.S.ghost['k']; N = s.r(ex, 'num')
        yield 'k range', And(0 <= k, k <= N)
        for n, f in s.CFG(ex): yield n, f
        yield 'alignment', s.r(ex, 'align') == If(s.al > 8, s.al, IntVal(8))
        yield 'psize', s.r(ex, 'psize') == s.ps
        yield 'number', N == s.N
        yield 'max', s.r(ex, 'max') == P2(s.lM)
        for n, f in s.BK(ex, ex.S, k): yield n, f
        for r, v, n in L.iphis:
            yield 'phi %s = k' % r, v == k
            yield 'phi %s = size' % r, v == P2(E(k))
            yield 'phi %s = blocks' % r, v == s.r(ex, 'psize') / P2(E(k))
        g, ge = ex.S.ghost, L.entry.ghost
        yield 'old pools stay', forall(['p'], lambda p: Implies(Select(ex.S0.ghost['con'], p), Select(g['con'], p)), lambda p: [Select(g['con'], p)])
    def post(s, ex, ret):
        s.ens(ex, 'number of buckets', s.r(ex, 'num') == s.N)
        s.ens(ex, 'configuration is kept', And(s.r(ex, 'psize') == s.ps, s.r(ex, 'align') == If(s.al > 8, s.al, IntVal(8)), s.r(ex, 'max') == P2(s.lM)))
        s.inv_post(ex)

class Default(Ctor):
    def pre(s, ex): s.N = Int('N')
    def callee(s, ex, dem, name): return s.ctor if dem.startswith('MallocBinned::MallocBinned(') else super().callee(ex, dem, name)
    def ctor(s, ex, a, ins):
        p = a[1]; rd = lambda f: ex.select_simp(s.f(ex, 'Binned.' + f), p.addr())
        ex.assume(And(s.N == 5, s.lm == 3, s.li == 3, s.lM == 18))
        for i in range(7): ex.assume(And(E(i) == 3 + 3 * i, P2(3 + 3 * i) == 1 << (3 + 3 * i)))
        ex.oblige('the object itself is constructed', a[0].addr() == s.obj, 'precondition')
        for n, f in s.ctor_pre(rd): ex.oblige('default configuration: ' + n, f, 'precondition')
        ex.oblige('default configuration: 64 KB pools', rd('psize') == 1 << 16, 'precondition'); s.n = getattr(s, 'n', 0) + 1
    def post(s, ex, ret): pass

class Dtor(BS):
    def pre(s, ex):
        # the table buffer came from the global allocator, which is not a pool of a bucket
        ex.assume(And(s.r(ex, 'malloc') > 0, Not(Select(ex.S.ghost['con'], s.r(ex, 'malloc')))))
        s.b8c = Int('b8'); ex.assume(s.b8c == s.b8(ex))
    def inv(s, ex, L):
        g, g0 = ex.S.ghost, ex.S0.ghost; N = s.r(ex, 'num'); m = ex.mem(RAW); at = lambda j: Select(m, j); c = s.b8c
        for r, v, n in L.iphis:
            yield 'index range %s' % r, And(0 <= v, v <= N)
            yield 'buckets before %s destroyed' % r, forall(['j'], lambda j: Implies(And(c <= j, j < c + v), Not(Select(g['con'], at(j)))), lambda j: [at(j)])
            yield 'buckets from %s not yet' % r, forall(['j'], lambda j: Implies(And(c + v <= j, j < c + N), And(Select(g['con'], at(j)), Select(g['alive'], at(j)))), lambda j: [at(j)])
        yield 'table alive', Select(g['tab'], s.r(ex, 'buf'))
        yield 'allocator is no pool', Not(Select(g['con'], s.r(ex, 'malloc')))
        yield 'only destroyed', forall(['p'], lambda p: Implies(Select(g['con'], p), Select(g0['con'], p)), lambda p: [Select(g['con'], p)])
    def post(s, ex, ret):
        g, g0 = ex.S.ghost, ex.S0.ghost; j = fresh('j', I); N = s.r(ex, 'num', ex.S0); b = s.r(ex, 'buf', ex.S0)
        s.ens(ex, 'every bucket is destroyed', Implies(And(0 <= j, j < N), Not(Select(g['con'], Select(ex.mem(RAW, None, ex.S0), s.b8c + j)))))
        s.ens(ex, 'the bucket table is released', Not(Select(g['tab'], b)))

def contracts(u):
    C = {u.find('^MallocBinned::getBucketIdx')[0]: Idx, u.find('^MallocBinned::MallocBinned')[0]: Ctor, 'bin_alloc': Alloc, 'bin_free': Free, 'bin_default': Default, 'bin_dtor': Dtor}
    return {n: c(n, u) for n, c in C.items()}
