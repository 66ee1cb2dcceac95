"""Contracts for algorithm/sort.h.

The comparison is an uninterpreted strict weak order: cmp(a, b) < 0 iff RANK(a) < RANK(b), > 0 iff RANK(a) > RANK(b)
(every strict weak order on a finite set of values is given by a rank).  Memory of the range is indexed by element.
Permutation: ghost maps pi, rho with pi(rho(i)) = rho(pi(i)) = i, both mapping the range into itself, and new[i] = old[pi(i)]."""
from speclib import *
UNIT = 'sort.cpp'
KEEP = (r'Sort::quicksort<', r'Sort::argquicksort<')
R32, R64 = ('raw', 'i32'), ('raw', 'i64')
RANK = Function('RANK', I, I)

class SortS(Spec):
    scale = {R32: 4, R64: 8}; elemsz = (8, 4)
    arg = False; wrapper = False
    def cmp(s, ex, args, ins):
        a, b = args; r = ex.freshval(IntT(32), 'cmp')
        neg = r >= (1 << 31)
        ex.assume(And(neg == (RANK(a) < RANK(b)), And(r > 0, Not(neg)) == (RANK(a) > RANK(b))))
        return r
    def callee(s, ex, dem, name):
        if name == 'kv_cmp': return s.cmp
        if 'Sort::quicksort<' in dem: return lambda ex, a, ins: s.rec(ex, a, False)
        if 'Sort::argquicksort<' in dem: return lambda ex, a, ins: s.rec(ex, a, True)
        return super().callee(ex, dem, name)
    def setup(s, ex):
        s.objects = []
        B, E = Ints('B E'); s.B, s.E = B, E
        ex.assume(And(B >= 1, B <= E, E < (1 << 60)))
        for i, v in ((0, B), (1, E)): ex.args[i] = Ptr(4 * v); ex.S.regs[ex.f.params[i][1]] = ex.args[i]
        s.X = None
        if s.arg:
            X = Int('X'); s.X = X; ex.assume(And(X >= 1, X + (E - B) < (1 << 60)))
            ex.args[2] = Ptr(8 * X); ex.S.regs[ex.f.params[2][1]] = ex.args[2]
            # the two containers do not overlap (they are of different element types)
        ex.mem(R32, I); ex.mem(R64, I)
        i = lambda n: ex.setg(n, defarr(ex, n, lambda k: k))
        i('pi'); i('rho')
        s.pre(ex)
    def pre(s, ex): pass
    def valid(s, ex, p, key, idx, size, how):
        if key == R32 and size == 4: return And(s.B <= idx, idx < s.E)
        if key == R64 and size == 8 and s.X is not None: return And(s.X <= idx, idx < s.X + (s.E - s.B))
        return BoolVal(False)
    # ---- permutation bookkeeping: contents are old contents through pi
    def perm_inv(s, ex):
        g = ex.S.ghost; pi, rho = g['pi'], g['rho']; B, E = s.B, s.E
        m, m0 = ex.mem(R32), ex.mem(R32, None, ex.S0)
        yield 'every element comes from the range', forall(['i'], lambda i: Implies(And(B <= i, i < E), And(B <= Select(pi, i), Select(pi, i) < E, Select(rho, Select(pi, i)) == i)), lambda i: [Select(pi, i)])
        yield 'every element of the range is kept', forall(['i'], lambda i: Implies(And(B <= i, i < E), And(B <= Select(rho, i), Select(rho, i) < E, Select(pi, Select(rho, i)) == i)), lambda i: [Select(rho, i)])
        yield 'contents are the permuted old contents', forall(['i'], lambda i: Implies(And(B <= i, i < E), Select(m, i) == Select(m0, Select(pi, i))), lambda i: [Select(m, i)], )
        yield 'elements outside the range are untouched', forall(['i'], lambda i: Implies(Or(i < B, i >= E), Select(m, i) == Select(m0, i)), lambda i: [Select(m, i)])
        x, x0 = ex.mem(R64), ex.mem(R64, None, ex.S0)
        if s.arg:
            X = s.X
            yield 'arguments are permuted like the elements', forall(['k'], lambda k: Implies(And(X <= k, k < X + (E - B)), Select(x, k) == Select(x0, Select(pi, k - X + B) - B + X)), lambda k: [Select(x, k)])
            yield 'arguments outside the range are untouched', forall(['k'], lambda k: Implies(Or(k < X, k >= X + (E - B)), Select(x, k) == Select(x0, k)), lambda k: [Select(x, k)])
        elif x is not x0: yield 'no other memory is written', BoolVal(False)
    def store_hook(s, ex, p, key, idx, v, ty):
        """two stores are one swap: the ghost permutation follows the value written"""
        if key == R32:
            ex.S.log.append(('st', idx))
            st = [e[1] for e in ex.S.log if e[0] == 'st'] if False else ex.S.x.get('st', [])
            st = st + [idx]
            if len(st) == 2:
                a, b = st; g = ex.S.ghost; pi, rho = g['pi'], g['rho']
                pa, pb = Select(pi, a), Select(pi, b)
                ex.setg('pi', Store(Store(pi, a, pb), b, pa))
                ex.setg('rho', Store(Store(rho, pa, b), pb, a))
                st = []
            ex.S.x['st'] = st
        return False
    def sorted(s, ex, b, e):
        m = ex.mem(R32)
        return forall(['i', 'j'], lambda i, j: Implies(And(b <= i, i < j, j < e), RANK(Select(m, i)) <= RANK(Select(m, j))), lambda i, j: [(Select(m, i), Select(m, j))])
    def rec(s, ex, args, arg):
        """contract of the recursive call on [b, e): sorts it, permutes it, touches nothing else"""
        b, e = ex.exdiv(args[0].addr(), 4), ex.exdiv(args[1].addr(), 4)
        ex.oblige('precondition: the sub-range lies inside the range', And(s.B <= b, b <= e, e <= s.E), 'precondition')
        if not s.wrapper: ex.oblige('the recursive call is on a shorter range', e - b < s.E - s.B, 'termination')
        g = ex.S.ghost; m0 = ex.mem(R32); x0 = ex.mem(R64)
        q, qi = fresh('q', AI), fresh('qi', AI)
        inr = lambda i: And(b <= i, i < e)
        ex.assume(forall(['i'], lambda i: If(inr(i), And(inr(Select(q, i)), Select(qi, Select(q, i)) == i), Select(q, i) == i), lambda i: [Select(q, i)]))
        ex.assume(forall(['i'], lambda i: If(inr(i), And(inr(Select(qi, i)), Select(q, Select(qi, i)) == i), Select(qi, i) == i), lambda i: [Select(qi, i)]))
        ex.havoc_region(R32); m = ex.mem(R32)
        ex.assume(forall(['i'], lambda i: Select(m, i) == Select(m0, Select(q, i)), lambda i: [Select(m, i)]))
        if arg:
            x = ex.exdiv(args[2].addr(), 8)
            ex.oblige('precondition: the arguments are those of the sub-range', And(BoolVal(s.arg), x - s.X == b - s.B) if s.arg else BoolVal(False), 'precondition')
            ex.havoc_region(R64); mx = ex.mem(R64)
            ex.assume(forall(['k'], lambda k: Select(mx, k) == If(And(x <= k, k < x + (e - b)), Select(x0, Select(q, k - x + b) - b + x), Select(x0, k)), lambda k: [Select(mx, k)]))
        ex.assume(s.sorted(ex, b, e))
        pi, rho = g['pi'], g['rho']
        ex.setg('pi', defarr(ex, 'pi', lambda k: Select(pi, Select(q, k))))
        ex.setg('rho', defarr(ex, 'rho', lambda k: Select(qi, Select(rho, k))))
        return None
    def post(s, ex, ret):
        ex.oblige('swaps are complete', BoolVal(not ex.S.x.get('st')), 'postcondition')
        for n, f in s.perm_inv(ex): s.ens(ex, n, f)
        s.ens(ex, 'the range is in order', s.sorted(ex, s.B, s.E))
    def inv(s, ex, L):
        B, E = s.B, s.E; m = ex.mem(R32)
        if ex.S.x.get('st'): return
        P = [(r, ex.divk(v.addr(), 4)) for r, v in L.pphis if ex.divk(v.addr(), 8) is None]
        P = [(r, t) for r, t in P if t is not None]
        yield from s.perm_inv(ex)
        for k, (r, t) in enumerate(P):
            yield 'p%d in range' % k, And(B <= t, t <= E)
            yield 'p%d past first' % k, t > B
            for j, (r2, t2) in enumerate(P):
                if j == k: continue
                yield 'p%d <= p%d' % (k, j), t <= t2
                yield 'p%d < p%d' % (k, j), t < t2
                yield 'p%d + 1 == p%d' % (k, j), t + 1 == t2
        for k, (r, t) in enumerate(P):
            for lo, ln in ((B, 'B'), (B + 1, 'B+1')):
                yield 'elements from %s before p%d are smaller than the pivot' % (ln, k), forall(['i'], lambda i: Implies(And(lo <= i, i < t), s.less(ex, Select(m, i))), lambda i: [Select(m, i)])
            for j, (r2, t2) in enumerate(P):
                if j != k: yield 'elements from p%d to p%d are not smaller' % (k, j), forall(['i'], lambda i: Implies(And(t <= i, i < t2), Not(s.less(ex, Select(m, i)))), lambda i: [Select(m, i)])
            if s.arg:
                for j, (r2, v2) in enumerate(L.pphis):
                    t8 = ex.divk(v2.addr(), 8)
                    if t8 is not None: yield 'p%d - B == x%d - X' % (k, j), t8 - s.X == t - B
                    
        m_ = ex.mem(R32, None, L.entry)
        yield 'pivot unchanged', Select(m, B) == Select(m_, B)
    def less(s, ex, v): return RANK(v) < RANK(Select(ex.mem(R32, None, ex.S0), s.B))

class Part(SortS):
    def less(s, ex, v): return RANK(v) < RANK(ex.args[2])
    def post(s, ex, ret):
        for n, f in s.perm_inv(ex): s.ens(ex, n, f)
        r = ex.exdiv(ret.addr(), 4); m = ex.mem(R32)
        s.ens(ex, 'result inside the range', And(s.B <= r, r <= s.E))
        s.ens(ex, 'smaller elements are before the result', forall(['i'], lambda i: Implies(And(s.B <= i, i < r), s.less(ex, Select(m, i))), lambda i: [Select(m, i)]))
        s.ens(ex, 'the others are after it', forall(['i'], lambda i: Implies(And(r <= i, i < s.E), Not(s.less(ex, Select(m, i)))), lambda i: [Select(m, i)]))

def contracts(u):
    C = {}
    C['sort_partition'] = Part('sort_partition', u)
    for n in ('sort_quick', 'sort_quick_lv', 'sort_arg'):
        C[n] = SortS(n, u); C[n].wrapper = True; C[n].arg = n == 'sort_arg'
    for n, f in u.mod.funcs.items():
        d = u.dem(n)
        if 'Sort::quicksort<' in d or 'Sort::argquicksort<' in d:
            C[n] = SortS(n, u); C[n].arg = 'argquick' in d
    return C
