"""Contracts for containers/array.h and the element helpers of generic/generic_platform_memory.h.

Memory is indexed by element cell (address / element size).  An array a is a pair (buffer cell q, count n); invariant: the
buffer is a live block of at least `capacity` cells owned by the array's allocator, cells [q, q+n) hold live elements and the
rest of the block none, count <= capacity.  Contents are ghost values (opaque element) or plain memory (integer).
The helpers that construct, copy, move and destroy ranges have contracts of their own."""
from speclib import *
UNIT = 'array.cpp'
KEEP = (r'GenericPlatformMemory::(constructDefaultElements|constructCopyElements|copyElements|moveElements|destroyElements)<Elem>',)
R32 = ('raw', 'i32')
CAP = 1 << 50           # bound on counts and capacities of the arrays given (documented assumption)
TOP = 1 << 57

def within(b, n): return lambda c: And(b <= c, c < b + n)

class Cells(Life, Spec):
    """content and lifetime maps, element-size generic"""
    elem = True; reg = R32
    def content(s, ex, S=None): return (S or ex.S).ghost['val'] if s.elem else ex.mem(s.reg, I, S)
    def setcontent(s, ex, m):
        if s.elem: ex.setg('val', m)
        else: ex.S.mem[s.reg] = m; ex.S.written.add(s.reg)
    def live(s, ex, S=None): return (S or ex.S).ghost['live']
    def callee(s, ex, dem, name):
        m = re.match(r'(?:.* )?GenericPlatformMemory::(\w+)<Elem>', dem)
        if m:
            return lambda ex, a, ins: getattr(s, 'h_' + m.group(1))(ex, a)
        return s.elem_callee(ex, dem, name) or super().callee(ex, dem, name)
    def all_live(s, ex, lo, hi, what):
        L = s.live(ex)
        ex.oblige(what, forall(['c'], lambda c: Implies(And(lo <= c, c < hi), Select(L, c)), lambda c: [Select(L, c)]), 'lifetime')
    def none_live(s, ex, lo, hi, what, but=None):
        L = s.live(ex)
        ex.oblige(what, forall(['c'], lambda c: Implies(And(lo <= c, c < hi, *([Not(but(c))] if but else [])), Not(Select(L, c))), lambda c: [Select(L, c)]), 'lifetime')
    def room(s, ex, lo, n): pass      # obligation: cells [lo, lo+n) are storage the caller owns
    # contracts of the range helpers, as used by their callers
    def h_constructDefaultElements(s, ex, a):
        b, e = s.ea(ex, a[0]), s.ea(ex, a[1])
        ex.oblige('the range to construct is well formed', b <= e, 'precondition'); s.room(ex, b, e - b)
        s.none_live(ex, b, e, 'no element is constructed over a live one')
        L, V = s.live(ex), s.content(ex); r = within(b, e - b)
        ex.setg('live', defarr(ex, 'live', lambda c: Or(r(c), Select(L, c)), BoolSort()))
        ex.setg('val', defarr(ex, 'val', lambda c: If(r(c), IntVal(0), Select(V, c))))
    def h_constructCopyElements(s, ex, a):
        d, q, n = s.ea(ex, a[0]), s.ea(ex, a[1]), a[2]
        s.room(ex, d, n)
        s.all_live(ex, q, q + n, 'copied elements are live'); s.none_live(ex, d, d + n, 'no element is constructed over a live one')
        L, V = s.live(ex), s.content(ex); r = within(d, n)
        ex.setg('live', defarr(ex, 'live', lambda c: Or(r(c), Select(L, c)), BoolSort()))
        ex.setg('val', defarr(ex, 'val', lambda c: If(r(c), Select(V, c - d + q), Select(V, c))))
    def h_copyElements(s, ex, a):
        d, q, n = s.ea(ex, a[0]), s.ea(ex, a[1]), a[2]
        ex.oblige('copied ranges do not overlap', Or(n == 0, d == q, d + n <= q, q + n <= d), 'precondition')
        s.all_live(ex, q, q + n, 'copied elements are live'); s.all_live(ex, d, d + n, 'assigned elements are live')
        V = s.content(ex); r = within(d, n)
        ex.setg('val', defarr(ex, 'val', lambda c: If(r(c), Select(V, c - d + q), Select(V, c))))
    def h_moveElements(s, ex, a):
        d, q, n = s.ea(ex, a[0]), s.ea(ex, a[1]), a[2]
        s.room(ex, d, n)
        s.all_live(ex, q, q + n, 'moved elements are live'); s.none_live(ex, d, d + n, 'no element is constructed over a live one', within(q, n))
        L, V = s.live(ex), s.content(ex); r, f = within(d, n), within(q, n)
        ex.setg('live', defarr(ex, 'live', lambda c: Or(r(c), And(Select(L, c), Not(f(c)))), BoolSort()))
        ex.setg('val', defarr(ex, 'val', lambda c: If(r(c), Select(V, c - d + q), Select(V, c))))
    def h_destroyElements(s, ex, a):
        b, e = s.ea(ex, a[0]), s.ea(ex, a[1])
        ex.oblige('the range to destroy is well formed', b <= e, 'precondition')
        s.all_live(ex, b, e, 'destroyed elements are live')
        L = s.live(ex); r = within(b, e - b)
        ex.setg('live', defarr(ex, 'live', lambda c: And(Select(L, c), Not(r(c))), BoolSort()))

class Helper(Cells):
    """the range helpers themselves: same contracts, now proved of the bodies"""
    esz = 8; elemsz = (8,)
    kind = None
    solver_opts = {'smt.relevancy': 0}
    def setup(s, ex):
        s.objects = []; s.heap(ex); s.life(ex)
        a = []
        for i, (t, n) in enumerate(ex.f.params):
            if isinstance(t, PtrT):
                c = Int('cell%d' % i); ex.assume(And(c >= 0, c < TOP)); a.append(c); ex.args[i] = Ptr(8 * c); ex.S.regs[n] = ex.args[i]
            else: ex.assume(ex.args[i] < CAP * 4); a.append(ex.args[i])
        s.a = a; L = s.live(ex)
        A = lambda lo, n, v, but=None: ex.assume(forall(['c'], lambda c: Implies(And(lo <= c, c < lo + n, *([Not(but(c))] if but else [])), Select(L, c) == v), lambda c: [Select(L, c)]))
        k = s.kind
        if k in ('constructDefaultElements', 'destroyElements'):
            s.d, s.q, s.n = a[0], a[0], a[1] - a[0]; ex.assume(a[0] <= a[1]); A(s.d, s.n, BoolVal(k[0] == 'd'))
        else:
            s.d, s.q, s.n = a; A(s.q, s.n, BoolVal(True))
            if k == 'constructCopyElements': A(s.d, s.n, BoolVal(False))
            if k == 'copyElements': A(s.d, s.n, BoolVal(True)); ex.assume(Or(s.n == 0, s.d == s.q, s.d + s.n <= s.q, s.q + s.n <= s.d))
            if k == 'moveElements': A(s.d, s.n, BoolVal(False), within(s.q, s.n))
    def valid(s, ex, p, key, idx, size, how): return BoolVal(False)
    def storage_ok(s, ex, c): return And(s.d <= c, c < s.d + s.n)
    def state(s, c, lo, k, L, V):
        """live and value of cell c once offsets [lo, lo+k) are done"""
        d, q = s.d, s.q; r, f = within(d + lo, k), within(q + lo, k)
        if s.kind == 'constructDefaultElements': return Or(r(c), Select(L, c)), If(r(c), IntVal(0), Select(V, c))
        if s.kind == 'destroyElements': return And(Select(L, c), Not(r(c))), Select(V, c)
        cp = If(r(c), Select(V, c - d + q), Select(V, c))
        if s.kind == 'constructCopyElements': return Or(r(c), Select(L, c)), cp
        if s.kind == 'copyElements': return Select(L, c), cp
        return Or(r(c), And(Select(L, c), Not(f(c)))), cp
    def facts(s, ex, lo, k, S):
        L, V = s.live(ex, ex.S0), s.content(ex, ex.S0); l, v = s.live(ex, S), s.content(ex, S)
        yield 'lifetimes', forall(['c'], lambda c: Select(l, c) == s.state(c, lo, k, L, V)[0], lambda c: [Select(l, c)])
        yield 'values of live elements', forall(['c'], lambda c: Implies(s.state(c, lo, k, L, V)[0], Select(v, c) == s.state(c, lo, k, L, V)[1]), lambda c: [Select(v, c)])
    def inv(s, ex, L):
        n = s.n; D = []
        for r, v, w in L.iphis:
            if w == 1: continue
            D += [('%s' % r, v), ('%s-1' % r, v - 1), ('n-%s' % r, n - v), ('n-1-%s' % r, n - 1 - v)]
        for r, v in L.pphis:
            t = ex.divk(v.addr(), 8)
            if t is None: continue
            for nm, b in (('d', s.d), ('q', s.q)):
                D += [('%s-%s' % (r, nm), t - b), ('%s+n-%s' % (nm, r), b + n - t), ('%s+n-1-%s' % (nm, r), b + n - 1 - t)]
        ok = set()
        for i, (nm, k) in enumerate(D):
            for nm2, k2 in D[:i]: yield '%s = %s' % (nm, nm2), k == k2
        for nm, k in D:
            yield '0 <= %s <= n' % nm, And(0 <= k, k <= n)
        for nm, k in D:
            for where, lo in (('up', IntVal(0)), ('down', n - k)):
                for fn, f in s.facts(ex, lo, k, ex.S): yield '%s %s: %s' % (where, nm, fn), f
    def post(s, ex, ret):
        for fn, f in s.facts(ex, IntVal(0), s.n, ex.S): s.ens(ex, fn + ' are those of the whole range', f)

class AS(Cells):
    """operations of Array<T>; args_ letters: a array, d raw array object, e element (cell), m allocator, b element range start, other: integer"""
    args_ = 'a'
    nonempty = False
    X = 'Arr'; esz = 8
    @property
    def elemsz(s): return (s.esz,)
    @property
    def scale(s): return None if s.elem else {s.reg: s.esz}
    @property
    def pscale(s): return {s.unit.fields[s.X + '.buffer']: s.esz}
    def setup(s, ex):
        s.objects = []; s.heap(ex); s.life(ex); ex.setg('own', Const('own0', AI))
        s.a = []; s.ext = []; s.k = []
        if not s.elem: ex.mem(s.reg, I)
        for i, kind in enumerate(s.args_):
            if kind in 'ad':
                p = s.argp(ex, i, s.X); s.objects.append(p); s.a.append(p); ex.assume(p < (1 << 60))
                for q in s.a[:-1]:
                    if isinstance(q, ExprRef): ex.assume(Or(p + 32 <= q, q + 32 <= p))
            elif kind in 'eb':
                c = Int('item%d' % i); ex.args[i] = Ptr(s.esz * c); ex.S.regs[ex.f.params[i][1]] = ex.args[i]; s.a.append(c)
                ex.assume(And(c > 0 if kind == 'e' else c >= 0, c < TOP))
            elif kind == 'm': s.a.append(ex.args[i].addr()); ex.assume(ex.args[i].addr() > 0)
            else: s.a.append(ex.args[i]); ex.assume(ex.args[i] < CAP)
        ex.S.x['blks'] = []
        for i, kind in enumerate(s.args_):
            if kind == 'a':
                q, n, cap = s.qn(ex, i); b = Int('ext%d' % i)
                for nm, f in s.AI(ex, i): ex.assume(f)
                ex.assume(And(s.R(ex, i, 'malloc') > 0, n < CAP, cap < CAP, q < TOP, Select(ex.S.ghost['bsize'], q) < CAP * 4))
                for q2 in ex.S.x['blks']: s.disj(ex, q, q2)
                ex.S.x['blks'] = ex.S.x['blks'] + [q]
        for i, kind in enumerate(s.args_):
            if kind == 'e':
                for q in ex.S.x['blks']: ex.assume(s.outside(ex, s.a[i], IntVal(1), q))
                for j in range(i):
                    if s.args_[j] == 'e': ex.assume(s.a[i] != s.a[j])
                ex.assume(s.lv(ex, s.a[i])) if s.elem else None
        s.pre(ex)
    def pre(s, ex): pass
    def R(s, ex, i, f, S=None): return s.rd(ex, '%s.%s' % (s.X, f), s.a[i], S)
    def qn(s, ex, i, S=None): return s.R(ex, i, 'buffer', S), s.R(ex, i, 'count', S), s.R(ex, i, 'cap', S)
    def disj(s, ex, q, q2):
        g = ex.S.ghost; ex.assume(Or(q == 0, q != q2)); ex.assume(Or(q == 0, q2 == 0, q + Select(g['bsize'], q) <= q2, q2 + Select(g['bsize'], q2) <= q))
    def outside(s, ex, c, n, q, S=None):
        g = (S or ex.S).ghost; return Or(q == 0, n == 0, c + n <= q, q + Select(g['bsize'], q) <= c)
    def AI(s, ex, i, S=None):
        S = S or ex.S; g = S.ghost; q, n, cap = s.qn(ex, i, S)
        yield 'count never exceeds capacity', And(0 <= n, n <= cap)
        yield 'no buffer, no capacity', And(q >= 0, Implies(q == 0, cap == 0))
        yield 'the buffer is a live block of the allocator holding at least the capacity', Implies(q > 0, And(Select(g['alive'], q), Select(g['bsize'], q) >= cap, Select(g['own'], q) == s.R(ex, i, 'malloc', S)))
        if s.elem:
            L = g['live']
            yield 'exactly the counted elements are alive', forall(['c'], lambda c: Implies(And(q > 0, q <= c, c < q + Select(g['bsize'], q)), Select(L, c) == (c < q + n)), lambda c: [Select(L, c)])
    def blocks(s, ex): return ex.S.x['blks']
    def inblock(s, ex, c, n=None):
        g = ex.S.ghost; n = IntVal(1) if n is None else n
        return [And(q > 0, Select(g['alive'], q), q <= c, c + n <= q + Select(g['bsize'], q)) for q in s.blocks(ex)]
    def items(s, c): return [c == x for x, k in zip(s.a, s.args_) if k == 'e']
    def srcrange(s, ex, c, n): return []
    def room(s, ex, lo, n): ex.oblige('elements are constructed inside the buffer', Or(n == 0, *s.inblock(ex, lo, n)), 'memory')
    def storage_ok(s, ex, c): return Or(c < 0, *s.inblock(ex, c))
    def valid(s, ex, p, key, idx, size, how):
        if key == ('raw', 'vtable'): return None
        if not s.elem and key == s.reg and size == s.esz: return Or(*(s.inblock(ex, idx) + s.items(idx)))
        if key[0] == 'raw': return BoolVal(False)
        return Or(*[idx == o for o in s.objects])
    # ---- allocator: sizes and addresses in cells
    def malloc_alloc(s, ex, args, ins):
        n = ex.exdiv(args[1], s.esz); q = fresh('new', I); g = ex.S.ghost
        ex.oblige('the size of the allocation does not overflow', And(n >= 0, n < TOP), 'memory')
        ex.oblige('alignment of the element', args[2] == s.esz, 'memory')
        ex.assume(And(q > 0, q + n < (1 << 60), Not(Select(g['alive'], q))))
        ex.setg('bsize', Store(g['bsize'], q, n))
        for q2 in s.blocks(ex): ex.assume(Implies(And(q2 > 0, Select(g['alive'], q2)), Or(q + n <= q2, q2 + Select(g['bsize'], q2) <= q)))
        for x, k in zip(s.a, s.args_):
            if k == 'e': ex.assume(Or(x < q, x >= q + n))
        s.src_fresh(ex, q, n)
        for q2 in s.blocks(ex): ex.assume(Implies(And(q2 > 0, Select(g['alive'], q2)), q != q2))
        L = s.live(ex); ex.assume(forall(['c'], lambda c: Implies(And(q <= c, c < q + n), Not(Select(L, c))), lambda c: [Select(L, c)]))
        ex.setg('alive', Store(g['alive'], q, BoolVal(True))); ex.setg('own', Store(g['own'], q, args[0].addr()))
        ex.S.x['blks'] = ex.S.x['blks'] + [q]
        return Ptr(IntVal(s.esz) * q)
    def src_fresh(s, ex, q, n): pass
    def malloc_free(s, ex, args, ins):
        q = s.ea(ex, args[1]); g = ex.S.ghost
        ex.oblige('free() is given a live block (no double free, no foreign pointer)', Or(q == 0, Select(g['alive'], q)), 'memory')
        ex.oblige('a block goes back to the allocator it came from', Or(q == 0, Select(g['own'], q) == args[0].addr()), 'memory')
        L = g['live']
        if s.elem: ex.oblige('no live element is left in a freed buffer', forall(['c'], lambda c: Implies(And(q > 0, q <= c, c < q + Select(g['bsize'], q)), Not(Select(L, c))), lambda c: [Select(L, c)]), 'lifetime')
        ex.setg('alive', Store(g['alive'], q, BoolVal(False)))
    # ---- plain memory copies (integer elements)
    def memmove(s, ex, d, src, n):
        if s.elem: return False
        dc, qc, k = ex.exdiv(d.addr(), s.esz), ex.exdiv(src.addr(), s.esz), ex.exdiv(n, s.esz)
        ex.oblige('copied memory lies inside the buffer', Or(k == 0, *s.inblock(ex, dc, k)), 'memory')
        ex.oblige('memory copied from lies inside the source', Or(k == 0, *(s.inblock(ex, qc, k) + s.srcrange(ex, qc, k))), 'memory')
        if 'memcpy' in ex.cur.x.n: ex.oblige('memcpy ranges do not overlap', Or(k == 0, dc == qc, dc + k <= qc, qc + k <= dc), 'memory')
        M = s.content(ex); r = within(dc, k)
        s.setcontent(ex, defarr(ex, 'mem', lambda c: If(r(c), Select(M, c - dc + qc), Select(M, c))))
        return True
    # ---- loops written in array.h (capacity doubling)
    def inv(s, ex, L):
        V = []
        for i, k in enumerate(s.args_):
            if k in 'ad': V += [('cap%d' % i, s.R(ex, i, 'cap'), s.R(ex, i, 'cap', L.entry))]
        for r, v, w in L.iphis:
            if w > 1: V.append((r, v, L.entryphi[r]))
        for nm, v, v0 in V:
            yield '%s positive' % nm, v > 0
            yield '%s bounded' % nm, v < (1 << 53)
            yield '%s grows' % nm, v >= v0
    # ---- postconditions
    def post(s, ex, ret):
        s.spec(ex, ret)
        S0, g, g0 = ex.S0, ex.S.ghost, ex.S0.ghost
        arr = [i for i, k in enumerate(s.args_) if k in 'ad' and i not in getattr(s, 'dead', ())]
        for i in arr:
            for n, f in s.AI(ex, i): s.ens(ex, 'array %d: %s' % (i, n), f)
        olds = [s.R(ex, i, 'buffer', S0) for i, k in enumerate(s.args_) if k == 'a']
        news = [s.R(ex, i, 'buffer') for i in arr]
        for i, a in enumerate(news):
            for b in news[:i]: s.ens(ex, 'arrays do not share a buffer', Or(a == 0, a != b))
        s.ens(ex, 'exactly the buffers of the arrays remain allocated', forall(['x'], lambda x: Select(g['alive'], x) == Or(And(Select(g0['alive'], x), *[x != q for q in olds]), And(x > 0, Or(*[x == q for q in news]))), lambda x: [Select(g['alive'], x)]))
        out = lambda c: And(*s.outer(ex, c) + [Or(q == 0, c < q, c >= q + Select(g['bsize'], q)) for q in set_(s.blocks(ex))] + [c != x for j, (x, k) in enumerate(zip(s.a, s.args_)) if k == 'e' and j in s.outs(ex)])
        L, L0, M, M0 = g['live'], g0['live'], s.content(ex), s.content(ex, S0)
        if s.elem: s.ens(ex, 'frame: lifetimes elsewhere unchanged', forall(['c'], lambda c: Implies(out(c), Select(L, c) == Select(L0, c)), lambda c: [Select(L, c)]))
        s.ens(ex, 'frame: elements elsewhere unchanged', forall(['c'], lambda c: Implies(And(out(c), Select(L0, c)) if s.elem else out(c), Select(M, c) == Select(M0, c)), lambda c: [Select(M, c)]))
        if s.elem:
            for j, k in enumerate(s.args_):
                if k == 'e': s.ens(ex, 'the argument element stays alive', s.lv(ex, s.a[j]))
    def outer(s, ex, c): return []      # cells the frame condition is about (all)
    def outs(s, ex): return s.moved
    moved = ()
    def seq(s, ex, i, n, f, defined=None):
        """array i now is the sequence f(0), ..., f(n-1)"""
        q, c_, cap = s.qn(ex, i); M = s.content(ex)
        s.ens(ex, 'array %d: count' % i, c_ == n)
        s.ens(ex, 'array %d: elements in sequence' % i, forall(['c'], lambda c: Implies(And(q <= c, c < q + c_, *([defined(c - q)] if defined else [])), Select(M, c) == f(c - q)), lambda c: [Select(M, c)]))
    def old(s, ex, i):
        q, n, cap = s.qn(ex, i, ex.S0); M0 = s.content(ex, ex.S0)
        return (lambda k: Select(M0, q + k)), n
    def same(s, ex, i):
        f, n = s.old(ex, i); s.seq(ex, i, n, f)
    def item(s, ex, j): return Select(s.content(ex, ex.S0), s.a[j])
    def ret_at(s, ex, ret, i, k): s.ens(ex, 'refers to the element', ret.addr() == s.esz * (s.R(ex, i, 'buffer') + k))
def set_(l):
    o = []
    for x in l:
        if not any(x.eq(y) for y in o): o.append(x)
    return o

def contracts(u):
    C = {}
    for k in ('constructDefaultElements', 'constructCopyElements', 'copyElements', 'moveElements', 'destroyElements'):
        for n in u.find(r'GenericPlatformMemory::%s<Elem>' % k):
            C[n] = type('H_' + k, (Helper,), dict(kind=k))(n, u)
    def both(n, args, spec, **kw):
        for p, ins in (('arr_', dict(elem=True, X='Arr', esz=8)), ('ari_', dict(elem=False, X='Ari', esz=4)), ('arl_', dict(elem=False, X='Arl', esz=8, reg=('raw', 'i64')))):
            if u.fn(p + n): C[p + n] = type('A_' + p + n, (AS,), dict(args_=args, spec=spec, **ins, **kw))(p + n, u)
    Z = lambda k: IntVal(0)
    def empty0(s, ex, ret): s.seq(ex, 0, 0, Z); s.ens(ex, 'no capacity', s.R(ex, 0, 'cap') == 0)
    both('ctor', 'd', empty0)
    def ctorM(s, ex, ret): empty0(s, ex, ret); s.ens(ex, 'uses the allocator given', s.R(ex, 0, 'malloc') == s.a[1])
    both('ctorM', 'dm', ctorM)
    def ctorN(s, ex, ret):
        s.seq(ex, 0, s.a[2], Z, None if s.elem else (lambda k: BoolVal(False))); s.ens(ex, 'capacity as requested', s.R(ex, 0, 'cap') == s.a[1])
    both('ctorN', 'dii', ctorN, pre=lambda s, ex: ex.assume(s.a[2] <= s.a[1]))
    def preB(s, ex):
        x, n = s.a[1], s.a[2]; L = s.live(ex)
        if s.elem: ex.assume(Implies(x > 0, forall(['c'], lambda c: Implies(And(x <= c, c < x + n), Select(L, c)), lambda c: [Select(L, c)])))
    def ctorB(s, ex, ret):
        x, n = s.a[1], s.a[2]; M0 = s.content(ex, ex.S0)
        s.seq(ex, 0, n, lambda k: If(x > 0, Select(M0, x + k), IntVal(0)), None if s.elem else (lambda k: x > 0)); s.ens(ex, 'capacity covers the slack', s.R(ex, 0, 'cap') >= n + s.a[3])
    both('ctorB', 'dbii', ctorB, pre=preB, srcrange=lambda s, ex, c, n: [And(s.a[1] > 0, s.a[1] <= c, c + n <= s.a[1] + s.a[2])], src_fresh=lambda s, ex, q, n: ex.assume(Or(s.a[1] + s.a[2] <= q, q + n <= s.a[1])))
    def cpy(s, ex, ret):
        f, n = s.old(ex, 1); s.seq(ex, 0, n, f); s.same(ex, 1)
        if ret is not None: s.ens(ex, 'returns the array', ret.addr() == s.a[0])
        if s.args_[0] == 'a': s.ens(ex, 'keeps its allocator', s.R(ex, 0, 'malloc') == s.R(ex, 0, 'malloc', ex.S0))
    both('copy', 'da', cpy); both('assign', 'aa', cpy)
    def mov(s, ex, ret):
        f, n = s.old(ex, 1); s.seq(ex, 0, n, f); s.ens(ex, 'the source is left empty', s.R(ex, 1, 'count') == 0)
        if ret is not None: s.ens(ex, 'returns the array', ret.addr() == s.a[0])
    both('move', 'da', mov); both('massign', 'aa', mov)
    def selfa(s, ex, ret): s.same(ex, 0); s.ens(ex, 'returns the array', ret.addr() == s.a[0])
    both('assign_self', 'a', selfa)
    both('dtor', 'a', lambda s, ex, ret: None, dead=(0,))
    def val(g):
        def f(s, ex, ret): s.ens(ex, 'result', g(s, ex, ret)); s.same(ex, 0)
        return f
    for n in ('getCount', 'getSize', 'getNum'): both(n, 'a', val(lambda s, ex, r: r == s.R(ex, 0, 'count', ex.S0)))
    both('isEmpty', 'a', val(lambda s, ex, r: r == (s.R(ex, 0, 'count', ex.S0) == 0)))
    both('getBytes', 'a', val(lambda s, ex, r: r == s.esz * s.R(ex, 0, 'count', ex.S0)))
    pos = lambda k: val(lambda s, ex, r: r.addr() == s.esz * (s.R(ex, 0, 'buffer', ex.S0) + k(s, ex)))
    for n in ('data', 'cdata', 'getData', 'it_begin', 'it_cbegin'): both(n, 'a', pos(lambda s, ex: 0))
    for n in ('idx', 'cidx', 'getAt'): both(n, 'ai', pos(lambda s, ex: s.a[1]), pre=lambda s, ex: ex.assume(s.a[1] < s.R(ex, 0, 'count')))
    for n in ('it_end', 'it_cend'): both(n, 'a', pos(lambda s, ex: s.R(ex, 0, 'count', ex.S0)))
    CNT = lambda s, ex: s.R(ex, 0, 'count', ex.S0) if hasattr(ex, 'S0') and ex.S0 is not None else s.R(ex, 0, 'count')
    def it(n, args, k, lo=None):
        def pre(s, ex):
            c = s.R(ex, 0, 'count'); r = k(s, ex)
            ex.assume(And(0 <= s.a[1], s.a[1] <= c, 0 <= r, r <= c))
        both(n, args, pos(k), pre=pre)
    I1 = lambda s, ex: s.a[1]
    it('it_arrow', 'ai', I1); it('it_index', 'aii', lambda s, ex: s.a[1] + s.a[2]); it('it_preinc', 'ai', lambda s, ex: s.a[1] + 1); it('it_postinc', 'ai', I1); it('it_postinc2', 'ai', lambda s, ex: s.a[1] + 1)
    it('it_predec', 'ai', lambda s, ex: s.a[1] - 1); it('it_postdec', 'ai', I1); it('it_postdec2', 'ai', lambda s, ex: s.a[1] - 1)
    for n in ('addeq', 'add'): it('it_' + n, 'aii', lambda s, ex: s.a[1] + s.a[2])
    for n in ('subeq', 'sub'): it('it_' + n, 'aii', lambda s, ex: s.a[1] - s.a[2])
    for n, op in (('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b), ('lt', lambda a, b: a < b), ('gt', lambda a, b: a > b), ('le', lambda a, b: a <= b), ('ge', lambda a, b: a >= b)):
        both('it_' + n, 'aii', val(lambda s, ex, r, op=op: r == op(s.a[1], s.a[2])), pre=lambda s, ex: ex.assume(And(s.a[1] <= s.R(ex, 0, 'count'), s.a[2] <= s.R(ex, 0, 'count'))))
    # ---- growth
    def at(s, ex, ret):
        f, n = s.old(ex, 0); i = s.a[1]; n2 = If(i < n, n, i + 1)
        s.seq(ex, 0, n2, lambda k: If(k < n, f(k), IntVal(0)), None if s.elem else (lambda k: k < n)); s.ret_at(ex, ret, 0, i)
    both('at', 'ai', at)
    def at_init(s, ex, ret):
        f, n = s.old(ex, 0); i = s.a[1]; n2 = If(i < n, n, i + 1)
        s.seq(ex, 0, n2, lambda k: If(k < n, f(k), If(k == i, s.item(ex, 2), IntVal(0))), None if s.elem else (lambda k: Or(k < n, k == i))); s.ret_at(ex, ret, 0, i)
    both('at_init', 'aie', at_init)
    def insert(where, items, rv=()):
        def f(s, ex, ret):
            g, n = s.old(ex, 0); i = where(s, ex, n); m = len(items); its = [s.item(ex, j) for j in items]
            def el(k):
                r = If(k < i, If(k < n, g(k), IntVal(0)), g(k - m))
                for t in range(m): r = If(k == i + t, its[t], r)
                return r
            s.seq(ex, 0, If(i <= n, n + m, i + m), el, None if s.elem else (lambda k: Or(k < n, k >= i)))
            if ret is not None: s.ret_at(ex, ret, 0, i)
        return f
    at1 = lambda s, ex, n: s.a[1]; front = lambda s, ex, n: IntVal(0); back = lambda s, ex, n: n
    both('insertAt', 'aie', insert(at1, [2])); both('insertAt_rv', 'aie', insert(at1, [2]), moved=(2,))
    both('insertAt2', 'aiee', insert(at1, [2, 3])); both('insertAt3', 'aieee', insert(at1, [2, 3, 4]))
    both('insertFirst', 'ae', insert(front, [1])); both('insertFirst2', 'aee', insert(front, [1, 2]))
    both('insertLast', 'ae', insert(back, [1])); both('insertLast_rv', 'ae', insert(back, [1]), moved=(1,)); both('insertLast2', 'aee', insert(back, [1, 2]))
    both('add', 'ae', insert(back, [1])); both('push', 'ae', insert(back, [1]))
    # ---- removal
    def remove(idx, num, out=None):
        def f(s, ex, ret):
            g, n = s.old(ex, 0); i = idx(s, ex, n); m = num(s, ex)
            s.seq(ex, 0, n - m, lambda k: If(k < i, g(k), g(k + m)))
            if out is not None: s.ens(ex, 'the removed element is handed out', Select(s.content(ex), s.a[out]) == g(i))
        return f
    one = lambda s, ex: 1
    both('removeAt', 'aii', remove(at1, lambda s, ex: s.a[2]), pre=lambda s, ex: ex.assume(s.a[1] + s.a[2] <= s.R(ex, 0, 'count')))
    both('removeAt1', 'ai', remove(at1, one), pre=lambda s, ex: ex.assume(s.a[1] < s.R(ex, 0, 'count')))
    ne = lambda s, ex: ex.assume(s.R(ex, 0, 'count') > 0)
    last = lambda s, ex, n: n - 1
    both('removeFirst', 'a', remove(front, one), pre=ne); both('removeLast', 'a', remove(last, one), pre=ne)
    both('popAt', 'aie', remove(at1, one, 2), pre=lambda s, ex: ex.assume(s.a[1] < s.R(ex, 0, 'count')), moved=(2,))
    both('popFirst', 'ae', remove(front, one, 1), pre=ne, moved=(1,)); both('popLast', 'ae', remove(last, one, 1), pre=ne, moved=(1,))
    for n in ('empty', 'clear'): both(n, 'a', lambda s, ex, ret: s.seq(ex, 0, 0, Z))
    both('reset', 'a', empty0)
    return C
