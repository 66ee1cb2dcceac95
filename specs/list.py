"""Contracts for containers/list.h (doubly linked list).

Abstract state of list l: a sequence at[0..L) of nodes.  Representation invariant LI(l, at, L):
  head/tail/length describe the sequence, every at[i] is a live node owned by l, pos[at[i]] = i, next/prev are the
  neighbours (null at the ends), and every live node owned by l is at[pos].  Data of the list = data[at[i]]."""
from speclib import *

UNIT = 'list.cpp'
PTRS = {'Link.next': 'Link', 'Link.prev': 'Link', 'List.head': 'Link', 'List.tail': 'Link'}
MAXL = 1 << 60

class LS(Spec):
    lists = (0,)
    alloc_type = 'Link'
    def setup(s, ex):
        s.heap(ex)
        ex.setg('owner', Const('owner0', AI)); ex.setg('pos', Const('pos0', AI))
        s.objects = []
        s.l = []
        for k in s.lists:
            a = s.argp(ex, k, 'List'); s.objects.append(a); s.l.append(a)
            ex.assume(Not(s.alive(ex, a)))
            ex.setg('at%d' % k, Const('at%d_0' % k, AI)); ex.setg('L%d' % k, Const('L%d_0' % k, I))
            ex.assume(And(s.rd(ex, 'List.malloc', a) > 0))
        if len(s.l) == 2 and not getattr(s, 'alias', False): ex.assume(s.l[0] != s.l[1])
        if not getattr(s, 'ctor', False):
            for n, f in s.LI(ex, 0): ex.assume(f)
        if len(s.l) == 2:
            for n, f in s.LI(ex, 1): ex.assume(f)
        s.pre(ex)
    def pre(s, ex): pass
    def LI(s, ex, k, S=None, at=None, L=None):
        S = S or ex.S; l = s.l[k]; g = S.ghost
        at = at if at is not None else g['at%d' % k]; L = L if L is not None else g['L%d' % k]
        own, pos, al = g['owner'], g['pos'], g['alive']
        nx = s.f(ex, 'Link.next', S); pv = s.f(ex, 'Link.prev', S)
        A = lambda i: Select(at, i)
        yield 'length counts the links', And(L >= 0, L < MAXL, s.rd(ex, 'List.length', l, S) == L)
        yield 'head is the first link', s.rd(ex, 'List.head', l, S) == If(L > 0, A(IntVal(0)), IntVal(0))
        yield 'tail is the last link', s.rd(ex, 'List.tail', l, S) == If(L > 0, A(L - 1), IntVal(0))
        yield 'links are live, distinct and owned', forall(['i'], lambda i: Implies(And(0 <= i, i < L),
            And(A(i) > 0, Select(al, A(i)), Select(own, A(i)) == l, Select(pos, A(i)) == i)), lambda i: [A(i)])
        yield 'next follows the sequence', forall(['i'], lambda i: Implies(And(0 <= i, i < L),
            Select(nx, A(i)) == If(i + 1 < L, A(i + 1), IntVal(0))), lambda i: [A(i)])
        yield 'prev follows the sequence', forall(['i'], lambda i: Implies(And(0 <= i, i < L),
            Select(pv, A(i)) == If(i > 0, A(i - 1), IntVal(0))), lambda i: [A(i)])
        yield 'every owned live link is in the sequence', forall(['n'], lambda n: Implies(And(Select(al, n), Select(own, n) == l),
            And(0 <= Select(pos, n), Select(pos, n) < L, A(Select(pos, n)) == n)), lambda n: [Select(own, n)])
    def check(s, ex, k=0):
        for n, f in s.LI(ex, k): s.ens(ex, n, f)
    def frame(s, ex, ks=(0,)):
        """live nodes of other owners, and other memory, untouched"""
        S0, S = ex.S0, ex.S
        mine = lambda n: Or(*[Select(S0.ghost['owner'], n) == s.l[k] for k in ks])
        for fl in ('Link.next', 'Link.prev', 'Link.data'):
            s.ens(ex, 'frame: %s of links of other lists unchanged' % fl, forall(['n'], lambda n: Implies(And(Select(S0.ghost['alive'], n), Not(mine(n))),
                And(Select(S.ghost['alive'], n), Select(s.f(ex, fl), n) == Select(s.f(ex, fl, S0), n))), lambda n: [Select(s.f(ex, fl), n)]))
    def data(s, ex, S=None): return s.f(ex, 'Link.data', S)
    def noleak(s, ex, ks=(0,)):
        """live blocks = blocks live before, minus removed links, plus new links of the lists"""
        S0, S = ex.S0, ex.S
        s.ens(ex, 'no block is leaked', forall(['n'], lambda n: Implies(And(Select(S.ghost['alive'], n), Not(Select(S0.ghost['alive'], n))),
            Or(*[Select(S.ghost['owner'], n) == s.l[k] for k in ks])), lambda n: [Select(S.ghost['alive'], n)]))
    # ghost transitions -------------------------------------------------
    def push(s, ex, n, k=0, front=False):
        g = ex.S.ghost; at, L = g['at%d' % k], g['L%d' % k]
        ex.setg('owner', Store(g['owner'], n, s.l[k]))
        if not front:
            ex.setg('at%d' % k, Store(at, L, n)); ex.setg('pos', Store(g['pos'], n, L))
        else:
            pos = g['pos'];own = g['owner']; l = s.l[k]
            ex.setg('at%d' % k, defarr(ex, 'at', lambda i: If(i == 0, n, Select(at, i - 1))))
            ex.setg('pos', defarr(ex, 'pos', lambda m: If(m == n, IntVal(0), If(Select(own, m) == l, Select(pos, m) + 1, Select(pos, m)))))
        ex.setg('L%d' % k, L + 1)
    def drop(s, ex, n, k=0):
        g = ex.S.ghost; at, L, pos, own = g['at%d' % k], g['L%d' % k], g['pos'], g['owner']; l = s.l[k]
        p = Select(pos, n)
        ex.setg('at%d' % k, defarr(ex, 'at', lambda i: If(i < p, Select(at, i), Select(at, i + 1))))
        ex.setg('pos', defarr(ex, 'pos', lambda m: If(And(Select(own, m) == l, Select(pos, m) > p), Select(pos, m) - 1, Select(pos, m))))
        ex.setg('L%d' % k, L - 1)
    def news(s, ex): return [e[1] for e in ex.S.log if e[0] == 'alloc']
    def frees(s, ex): return [e[1] for e in ex.S.log if e[0] == 'free']

class Push(LS):
    front = False; extra = 1
    def pre(s, ex):
        for i in range(1, 1 + s.extra):
            a = s.argp(ex, i); s.objects.append(a)
        ex.assume(ex.S.ghost['L0'] < MAXL - 4)
    def post(s, ex, ret):
        ns = s.news(ex)
        s.ens(ex, 'exactly one link per pushed item', BoolVal(len(ns) == s.extra and not s.frees(ex)))
        S0 = ex.S0; L0 = S0.ghost['L0']; at0 = S0.ghost['at0']
        for n in ns: s.push(ex, n, 0, s.front)
        s.check(ex); s.noleak(ex); s.frame(ex)
        d, d0 = s.data(ex), s.data(ex, S0)
        at = ex.S.ghost['at0']
        e = s.extra
        raw = ex.mem(('raw', 'i32'), I, S0)
        for j in range(e):
            i = L0 + j if not s.front else IntVal(e - 1 - j)
            s.ens(ex, 'pushed item %d is stored at its position' % j, Select(d, Select(at, i)) == Select(raw, ex.args[1 + j].addr()))
        off = e if s.front else 0
        s.ens(ex, 'existing items keep value and order', forall(['i'], lambda i: Implies(And(0 <= i, i < L0),
            And(Select(at, i + off) == Select(at0, i), Select(d, Select(at0, i)) == Select(d0, Select(at0, i)))), lambda i: [Select(at0, i)]))
        if ret is not None and e == 1:
            s.ens(ex, 'returns a reference to the inserted item', ret.addr() == ns[0] + s.unit.fields['Link.data'][1])
        for j in range(e):
            s.ens(ex, 'argument %d unchanged' % j, Select(ex.mem(('raw', 'i32'), I), ex.args[1+j].addr()) == Select(raw, ex.args[1+j].addr()))

class Remove(LS):
    which = 'arg'; out = None; it = False
    def pre(s, ex):
        g = ex.S.ghost
        if s.which == 'arg':
            x = s.argp(ex, 1, 'Link', nonnull=not s.it)
            c = And(Select(g['alive'], x), Select(g['owner'], x) == s.l[0])
            ex.assume(Or(x == 0, c) if s.it else c)
            s.x = x
        else:
            L = g['L0']; s.x = Select(g['at0'], IntVal(0) if s.which == 'front' else L - 1)
        if s.out: s.objects.append(s.argp(ex, 1)); ex.assume(Not(s.alive(ex, ex.args[1].addr())))
    def post(s, ex, ret):
        S0 = ex.S0; g0 = S0.ghost
        present = g0['L0'] > 0 if s.which != 'arg' else (s.x != 0)
        fr = s.frees(ex)
        if ex.proves(Not(present)):
            s.ens(ex, 'nothing freed from an empty list', BoolVal(not fr))
            if ret is not None: s.ens(ex, 'returns false on an empty list', Not(ret))
            s.check(ex); s.frame(ex, ())
            return
        s.ens(ex, 'list is not empty on this path', present)
        if ret is not None: s.ens(ex, 'returns true', ret)
        s.ens(ex, 'exactly the requested link is destroyed', And(BoolVal(len(fr) == 1), fr[0] == s.x) if fr else BoolVal(False))
        s.drop(ex, s.x)
        s.check(ex); s.frame(ex)
        d, d0 = s.data(ex), s.data(ex, S0); at0, at = g0['at0'], ex.S.ghost['at0']; p = Select(g0['pos'], s.x)
        s.ens(ex, 'remaining items keep value and order', forall(['i'], lambda i: Implies(And(0 <= i, i < g0['L0'], i != p),
            And(Select(at, If(i < p, i, i - 1)) == Select(at0, i), Select(d, Select(at0, i)) == Select(d0, Select(at0, i)))), lambda i: [Select(at0, i)]))
        if s.out:
            s.ens(ex, 'the removed value is returned', Select(ex.mem(('raw', 'i32'), I), ex.args[1].addr()) == Select(d0, s.x))

class Getter(LS):
    def __init__(s, n, u, expr, pre=None): super().__init__(n, u); s.expr = expr; s._pre = pre
    def pre(s, ex):
        if s._pre: s._pre(s, ex)
    def post(s, ex, ret):
        r = ret.addr() if isinstance(ret, Ptr) else ret
        s.ens(ex, 'result', r == s.expr(s, ex))
        s.check(ex); s.frame(ex, ())

class Ctor(LS):
    ctor = True; mal = False
    def pre(s, ex):
        if s.mal: ex.assume(ex.args[1].addr() > 0)
        ex.assume(forall(['n'], lambda n: Implies(s.alive(ex, n), Select(ex.S.ghost['owner'], n) != s.l[0]), lambda n: [s.alive(ex, n)]))
    def valid(s, ex, p, key, idx, size, how):
        return super().valid(ex, p, key, idx, size, how)
    def post(s, ex, ret):
        ex.setg('L0', IntVal(0))
        s.check2(ex); s.frame(ex, ())
    def check2(s, ex):
        # owner[] of dead nodes is irrelevant
        s.check(ex)

class It(LS):
    """iterator stepping: ++ moves to next, -- to prev, * refers to the data"""
    kind = 'next'
    def pre(s, ex):
        pass

class ItStep(Spec):
    fld = 'Link.next'; postfix = False; eq = None
    def setup(s, ex):
        s.heap(ex); s.objects = []
        s.k = s.argp(ex, 0, 'Link', nonnull=s.eq is None)
        if s.eq is None: ex.assume(s.alive(ex, s.k))
        if s.postfix: s.objects.append(s.argp(ex, 1))
    def post(s, ex, ret):
        if s.eq is not None:
            same = ex.args[0].addr() == ex.args[1].addr()
            s.ens(ex, 'iterators compare by link', ret == (same if s.eq else Not(same))); return
        if s.fld == 'Link.data':
            s.ens(ex, 'dereference refers to the data of the link', ret.addr() == s.k + s.unit.fields['Link.data'][1]); return
        nx = Select(s.f(ex, s.fld, ex.S0), s.k)
        if s.postfix:
            s.ens(ex, 'postfix step returns the old position', ret.addr() == s.k)
            s.ens(ex, 'postfix step moves to the neighbour', Select(ex.mem(('raw', 'ptr'), I), ex.args[1].addr()) == nx)
        else: s.ens(ex, 'step moves to the neighbour', ret.addr() == nx)

class Empty(LS):
    """empty()/destructor: every link of the list is freed exactly once and nothing else"""
    dtor = False
    def loop_step(s, ex, L): s.absorb(ex, L)
    def absorb(s, ex, L):
        base = L.base
        done = getattr(base, 'nfree', 0)
        for e in ex.S.log[len(L.hdr.log):]:
            if e[0] == 'free': ex.setg('dropped', ex.S.ghost['dropped'] + 1)
    def pre(s, ex): ex.setg('dropped', IntVal(0))
    def inv(s, ex, L):
        S, S0 = ex.S, ex.S0; g, g0 = S.ghost, S0.ghost; dr = g['dropped']; L0 = g0['L0']; at0 = g0['at0']
        yield 'count range', And(0 <= dr, dr <= L0)
        yield 'links before the cursor are freed', forall(['i'], lambda i: Implies(And(0 <= i, i < L0), Select(g['alive'], Select(at0, i)) == (i >= dr)), lambda i: [Select(at0, i)])
        yield 'other blocks unaffected', forall(['n'], lambda n: Implies(Select(g0['owner'], n) != s.l[0], Select(g['alive'], n) == Select(g0['alive'], n)), lambda n: [Select(g['alive'], n)])
        yield 'no owned block is revived', forall(['n'], lambda n: Implies(Select(g['alive'], n), Select(g0['alive'], n)), lambda n: [Select(g['alive'], n)])
        cur = If(dr < L0, Select(at0, dr), IntVal(0))
        yield 'head is the first remaining link', s.rd(ex, 'List.head', s.l[0]) == cur
        for r, v in L.pphis: yield 'cursor %s is the first remaining link' % r, v.addr() == cur
        for fl in ('Link.next', 'Link.prev'):
            yield fl + ' unchanged on the rest', forall(['i'], lambda i: Implies(And(dr <= i, i < L0), Select(s.f(ex, fl), Select(at0, i)) == Select(s.f(ex, fl, S0), Select(at0, i))), lambda i: [Select(at0, i)])
        for fl in ('Link.next', 'Link.prev', 'Link.data'):
            if s.f(ex, fl) is not s.f(ex, fl, S0):
                yield fl + ' unchanged elsewhere', forall(['n'], lambda n: Implies(And(Select(g0['alive'], n), Select(g0['owner'], n) != s.l[0]), Select(s.f(ex, fl), n) == Select(s.f(ex, fl, S0), n)), lambda n: [Select(s.f(ex, fl), n)])
    def post(s, ex, ret):
        S0 = ex.S0; g0 = S0.ghost; al = ex.S.ghost['alive']
        s.ens(ex, 'every link is freed', forall(['n'], lambda n: Implies(Select(g0['owner'], n) == s.l[0], Not(Select(al, n))), lambda n: [Select(al, n)]))
        s.ens(ex, 'no other block is freed', forall(['n'], lambda n: Implies(And(Select(g0['alive'], n), Select(g0['owner'], n) != s.l[0]), Select(al, n)), lambda n: [Select(al, n)]))
        s.frame(ex)
        if not s.dtor:
            ex.setg('L0', IntVal(0))
            s.check(ex)

class MoveCtor(LS):
    lists = (0, 1); ctor = True
    def post(s, ex, ret):
        S0 = ex.S0; g0 = S0.ghost
        s.ens(ex, 'no block allocated or freed', BoolVal(not ex.S.log))
        s.transfer(ex)
        s.check(ex, 0); s.check(ex, 1); s.same_data(ex); s.allocs(ex)
    def allocs(s, ex):
        m = s.rd(ex, 'List.malloc', s.l[1], ex.S0)
        s.ens(ex, 'the allocator of the source is used from now on', s.rd(ex, 'List.malloc', s.l[0]) == m)
        s.ens(ex, 'the source keeps its allocator (it stays usable)', s.rd(ex, 'List.malloc', s.l[1]) == m)
    def pre(s, ex):
        if s.ctor:
            ex.assume(forall(['n'], lambda n: Implies(s.alive(ex, n), Select(ex.S.ghost['owner'], n) != s.l[0]), lambda n: [Select(ex.S.ghost['owner'], n)]))
    def transfer(s, ex):
        g0 = ex.S0.ghost; own0 = g0['owner']
        ex.setg('at0', g0['at1']); ex.setg('L0', g0['L1']); ex.setg('L1', IntVal(0))
        l0, l1 = s.l
        ex.setg('owner', defarr(ex, 'owner', lambda n: If(Select(own0, n) == l1, l0, If(Select(own0, n) == l0, l1, Select(own0, n)))))
    def same_data(s, ex):
        S0 = ex.S0; g0 = S0.ghost
        s.ens(ex, 'the elements are those of the source, in order', forall(['i'], lambda i: Implies(And(0 <= i, i < g0['L1']),
            Select(s.data(ex), Select(ex.S.ghost['at0'], i)) == Select(s.data(ex, S0), Select(g0['at1'], i))), lambda i: [Select(g0['at1'], i)]))
        s.frame(ex, (0, 1))

class MoveAssign(MoveCtor):
    ctor = False
    loop_step = Empty.loop_step; absorb = Empty.absorb; inv = Empty.inv
    def pre(s, ex): Empty.pre(s, ex)
    def post(s, ex, ret):
        S0 = ex.S0; g0 = S0.ghost; al = ex.S.ghost['alive']
        s.ens(ex, 'the old links are freed', forall(['n'], lambda n: Implies(Select(g0['owner'], n) == s.l[0], Not(Select(al, n))), lambda n: [Select(al, n)]))
        s.transfer(ex)
        s.check(ex, 0); s.check(ex, 1); s.same_data(ex); s.allocs(ex)
        s.ens(ex, 'returns the list itself', ret.addr() == s.l[0])

class Copy(LS):
    """copy construction / copy assignment.  Ghosts: c = items overwritten in place, dr = links destroyed,
    at0/L0 grow when a link is appended.  Which of the three an iteration did is read off the path (alloc / free / neither)."""
    lists = (0, 1); assign = True
    def pre(s, ex):
        ex.setg('c', IntVal(0)); ex.setg('dr', IntVal(0))
        if not s.assign:
            ex.assume(forall(['n'], lambda n: Implies(s.alive(ex, n), Select(ex.S.ghost['owner'], n) != s.l[0]), lambda n: [Select(ex.S.ghost['owner'], n)]))
            ex.setg('L0', IntVal(0))
        s.L00 = ex.S.ghost['L0']; s.at00 = ex.S.ghost['at0']; s.own0 = ex.S.ghost['owner']
    def on_alloc(s, ex, p, n): s.push(ex, p, 0)
    def loop_step(s, ex, L):
        ev = [e[0] for e in ex.S.log[len(L.base.hdr.log):]]
        if not ev: ex.setg('c', ex.S.ghost['c'] + 1)
        for e in ev:
            if e == 'free': ex.setg('dr', ex.S.ghost['dr'] + 1)
    def inv(s, ex, L):
        S, S0 = ex.S, ex.S0; g, g0 = S.ghost, S0.ghost
        l0, l1 = s.l; at0, at1, L0, L1, c, dr = g['at0'], g0['at1'], g['L0'], g0['L1'], g['c'], g['dr']
        d, d0 = s.data(ex), s.data(ex, S0); al = g['alive']; L00 = s.L00
        A0 = lambda i: Select(at0, i); A1 = lambda i: Select(at1, i)
        yield 'c range', And(0 <= c, c <= L1, c <= L00)
        yield 'L0 range', And(L00 <= L0, L0 <= L1)
        yield 'L0 range 1', And(L00 <= L0, Or(L0 == L00, L0 <= L1))
        yield 'dr range', And(0 <= dr, c + dr <= L00)
        yield 'dr range 1', Implies(dr > 0, And(c == L1, L0 == L00))
        yield 'grows only when all overwritten', Implies(L0 > L00, c == L00)
        yield 'c = L00', c == L00
        yield 'c = L1', c == L1
        yield 'dr=0', dr == 0
        yield 'c=0', c == 0
        for r, v in L.pphis:
            a = v.addr()
            yield 'phi %s = src[c]' % r, a == If(c < L1, A1(c), 0)
            yield 'phi %s = src[L0]' % r, a == If(L0 < L1, A1(L0), 0)
            yield 'phi %s = src[L0-dr]' % r, a == If(L0 - dr < L1, A1(L0 - dr), 0)
            yield 'phi %s = dst[c+dr]' % r, a == If(c + dr < L0, A0(c + dr), 0)
            yield 'phi %s = dst[c]' % r, a == If(c < L0, A0(c), 0)
            yield 'phi %s = src[dr]' % r, a == If(dr < L1, A1(dr), 0)
            for q in ex.args: 
                if isinstance(q, Ptr): yield 'phi %s = arg' % r, a == q.addr()
        if not s.assign or True:
            for n, f in s.LI(ex, 0): yield 'dst: ' + n, f
        yield 'L0-dr range', And(L0 >= L00, Or(L0 - dr <= L1, L0 == L00), Or(L0 == L00, dr == 0))
        yield 'head = dst[dr]', s.rd(ex, 'List.head', l0) == If(dr < L0, A0(dr), 0)
        yield 'tail cut', s.rd(ex, 'List.tail', l0) == If(c > 0, A0(c - 1), If(L0 > 0, A0(L0 - 1), 0))
        yield 'tail after drop', s.rd(ex, 'List.tail', l0) == If(And(c > 0, c < L00), A0(c - 1), If(L0 > 0, A0(L0 - 1), 0))
        yield 'length after drop', s.rd(ex, 'List.length', l0) == L0 - dr
        yield 'live dst links', forall(['i'], lambda i: Implies(And(0 <= i, i < L0), And(A0(i) > 0, Select(al, A0(i)) == Or(i < c, i >= c + dr), Select(g['owner'], A0(i)) == l0, Select(g['pos'], A0(i)) == i)), lambda i: [A0(i)])
        yield 'no owned block is revived', forall(['n'], lambda n: Implies(And(Select(al, n), Select(g['owner'], n) == l0), Select(A(at0), Select(g['pos'], n)) == n) if False else Implies(And(Select(al, n), Select(g['owner'], n) == l0), And(0 <= Select(g['pos'], n), Select(g['pos'], n) < L0, Select(at0, Select(g['pos'], n)) == n)), lambda n: [Select(g['owner'], n)])
        yield 'copied prefix (c)', forall(['i'], lambda i: Implies(And(0 <= i, i < c), Select(d, A0(i)) == Select(d0, A1(i))), lambda i: [A0(i)])
        yield 'copied prefix (L0-dr)', forall(['i'], lambda i: Implies(And(0 <= i, i < L0 - dr), Select(d, A0(i)) == Select(d0, A1(i))), lambda i: [A0(i)])
        yield 'copied prefix (L0)', forall(['i'], lambda i: Implies(And(0 <= i, i < L0), Select(d, A0(i)) == Select(d0, A1(i))), lambda i: [A0(i)])
        yield 'other blocks live', forall(['n'], lambda n: Implies(And(Select(g0['alive'], n), Select(s.own0, n) != l0), And(Select(al, n), Select(g['owner'], n) == Select(s.own0, n), Select(g['pos'], n) == Select(g0['pos'], n))), lambda n: [Select(g0['alive'], n)])
        yield 'other blocks live2', forall(['n'], lambda n: Implies(And(Select(g0['alive'], n), Select(s.own0, n) != l0), And(Select(al, n), Select(g['owner'], n) == Select(s.own0, n), Select(g['pos'], n) == Select(g0['pos'], n))), lambda n: [Select(s.own0, n)])
        yield 'new blocks owned', forall(['n'], lambda n: Implies(And(Select(al, n), Not(Select(g0['alive'], n))), Select(g['owner'], n) == l0), lambda n: [Select(al, n)])
        yield 'owner partition', forall(['n'], lambda n: Implies(And(Select(al, n), Select(g['owner'], n) != l0), And(Select(g0['alive'], n), Select(s.own0, n) == Select(g['owner'], n))), lambda n: [Select(g['owner'], n)])
        for fl in ('Link.next', 'Link.prev', 'Link.data'):
            if s.f(ex, fl) is not s.f(ex, fl, S0):
                yield fl + ' unchanged elsewhere', forall(['n'], lambda n: Implies(And(Select(g0['alive'], n), Select(s.own0, n) != l0), Select(s.f(ex, fl), n) == Select(s.f(ex, fl, S0), n)), lambda n: [Select(s.f(ex, fl), n)])
                yield fl + ' unchanged elsewhere2', forall(['i'], lambda i: Implies(And(0 <= i, i < L1), Select(s.f(ex, fl), A1(i)) == Select(s.f(ex, fl, S0), A1(i))), lambda i: [A1(i)])
        if s.assign:
            for fl in ('Link.next', 'Link.prev'):
                if s.f(ex, fl) is not s.f(ex, fl, S0):
                    yield fl + ' unchanged on the dst', forall(['i'], lambda i: Implies(And(0 <= i, i < L0), Select(s.f(ex, fl), Select(at0, i)) == Select(s.f(ex, fl, S0), Select(at0, i))), lambda i: [Select(at0, i)])
    def post(s, ex, ret):
        S0 = ex.S0; g0 = S0.ghost; g = ex.S.ghost; al = g['alive']; L1 = g0['L1']
        if not g['dr'].eq(IntVal(0)):
            ex.setg('L0', g['L0'] - g['dr'])
        s.check(ex, 0); s.check(ex, 1)
        s.ens(ex, 'same number of items as the source', ex.S.ghost['L0'] == L1)
        s.ens(ex, 'items equal those of the source, in order', forall(['i'], lambda i: Implies(And(0 <= i, i < L1),
            Select(s.data(ex), Select(ex.S.ghost['at0'], i)) == Select(s.data(ex, S0), Select(g0['at1'], i))), lambda i: [Select(g0['at1'], i)]))
        s.ens(ex, 'source links keep their values', forall(['i'], lambda i: Implies(And(0 <= i, i < L1),
            And(Select(s.data(ex), Select(g0['at1'], i)) == Select(s.data(ex, S0), Select(g0['at1'], i)), Select(ex.S.ghost['at1'], i) == Select(g0['at1'], i))), lambda i: [Select(g0['at1'], i)]))
        s.noleak(ex)
        if s.assign: s.ens(ex, 'returns the list itself', ret.addr() == s.l[0])

def pre_nothing(s, ex): pass

def contracts(u):
    u.setptr(PTRS)
    C = {}
    def add(n, cls, **k):
        c = cls(n, u)
        for a, b in k.items(): setattr(c, a, b)
        C[n] = c
    add('list_pushBack', Push); add('list_pushFront', Push, front=True)
    add('list_pushBack2', Push, extra=2); add('list_pushFront2', Push, front=True, extra=2)
    add('list_remove', Remove); add('list_removeIt', Remove, it=True)
    add('list_removeBack', Remove, which='back'); add('list_removeFront', Remove, which='front')
    add('list_popBack', Remove, which='back', out=True); add('list_popFront', Remove, which='front', out=True)
    add('list_empty', Empty); add('list_dtor', Empty, dtor=True)
    add('list_ctor', Ctor); add('list_ctorM', Ctor, mal=True)
    add('list_moveCtor', MoveCtor); add('list_moveAssign', MoveAssign)
    add('list_copyCtor', Copy, ctor=True, assign=False); add('list_copyAssign', Copy)
    C['list_getLength'] = Getter('list_getLength', u, lambda s, ex: ex.S0.ghost['L0'])
    first = lambda s, ex: If(ex.S0.ghost['L0'] > 0, Select(ex.S0.ghost['at0'], IntVal(0)), IntVal(0))
    C['list_getHead'] = Getter('list_getHead', u, first); C['list_begin'] = Getter('list_begin', u, first)
    C['list_getTail'] = Getter('list_getTail', u, lambda s, ex: If(ex.S0.ghost['L0'] > 0, Select(ex.S0.ghost['at0'], ex.S0.ghost['L0'] - 1), IntVal(0)))
    C['list_end'] = Getter('list_end', u, lambda s, ex: IntVal(0))
    for n, k in (('list_itNext', {}), ('list_itPrev', {'fld': 'Link.prev'}), ('list_itDeref', {'fld': 'Link.data'}), ('list_itPostNext', {'postfix': True}),
                 ('list_itPostPrev', {'postfix': True, 'fld': 'Link.prev'}), ('list_itEq', {'eq': True}), ('list_itNe', {'eq': False})):
        add(n, ItStep, **k)
    return C
