"""Contracts for containers/tree.h (threaded red-black tree), over an opaque element and comparison.

Ghost view of a tree: N (its nodes), lab (a position in (0,1) of every node: in-order is label order), lo/hi (the open interval of
labels the subtree of a node spans), bh (black height), root.  The representation invariant is a conjunction of LOCAL conditions on
a node and its neighbours (conds1), and of conditions on pairs of nodes (conds2: no node between a node and its successor, keys in
order).  The comparison is an uninterpreted total preorder (a rank).  Obligations are quantified over all nodes; they are proved
for an arbitrary node, with the hypotheses instantiated at the nodes the path touches and at the neighbours of the arbitrary one."""
from speclib import *
UNIT = 'tree.cpp'
NODE = r'(?:Binary\w+<Elem, Cmp(?:, void)?>)'
KEEP = (r'BinaryNode<Elem, Cmp>::(getRoot|getMin|getMax|getTreeSize|insert|insertUnique|repairInserted|repairRemoved)\(',
        r'BinaryNode<Elem, Cmp>::find<', r'BinaryNode<Elem, Cmp>::remove\(BinaryNode<Elem, Cmp>\*&\)',
        r'BinaryTree<Elem, Cmp, void>::(destroySubtree|cloneSubtree)\(')
R = RealSort()
AR = ArraySort(I, R)
FLD = ('left', 'right', 'parent', 'next', 'prev')
PTRS = {'Node.' + f: 'Node' for f in FLD}; PTRS['Tree.root'] = 'Node'
BLACK = 0
def bare(t): return t

FV = Ints('fx fy')
class View:
    """maps of one tree in one state"""
    def __init__(s, **k): s.__dict__.update(k)
    def but(s, **k):
        d = dict(s.__dict__); d.update(k); return View(**d)

class TS(Life, Spec):
    alloc_type = 'Node'
    nt = 1                 # number of trees
    istree = ()            # argument index of each tree object (tree_* functions)
    strict = False         # keys are unique
    timeout = 8000
    # ------------------------------------------------------------------ views
    def field(s, ex, f, S=None): return s.f(ex, 'Node.' + f, S)
    def view(s, ex, k=0, S=None):
        S = S or ex.S; g = S.ghost
        return View(k=k, N=g['N%d' % k], lab=g['lab%d' % k], lo=g['lo%d' % k], hi=g['hi%d' % k], bh=g['bh%d' % k], root=g['root%d' % k],
                    val=g['val'], live=g['live'], alive=g['alive'], exc=None, dn=None, dp=None, skip=None, kn=None, color=s.field(ex, 'color', S), strict=s.strict,
                    **{f: s.field(ex, f, S) for f in FLD})
    def setview(s, ex, V):
        k = V.k
        for f in ('N', 'lab', 'lo', 'hi', 'bh', 'root'): ex.setg('%s%d' % (f, k), getattr(V, f))
    def key(s, V, n):
        k = RANKE(Select(V.val, n + s.doff))
        return k if V.skip is None else If(n == V.skip, V.kn, k)       # the element of this node may have been moved from: its place is that of the old key
    def PL(s, V, n): p = Select(V.prev, n); return If(p != 0, Select(V.lab, p), RealVal(0))
    def NL(s, V, n): p = Select(V.next, n); return If(p != 0, Select(V.lab, p), RealVal(1))
    def BH(s, V, n): return If(n != 0, Select(V.bh, n), IntVal(0))
    def black(s, V, n): return Select(V.color, n) == BLACK
    def conds1(s, V, rb=True):
        N = lambda n: Select(V.N, n); lab = lambda n: Select(V.lab, n); lo = lambda n: Select(V.lo, n); hi = lambda n: Select(V.hi, n)
        L = lambda n: Select(V.left, n); R_ = lambda n: Select(V.right, n); P = lambda n: Select(V.parent, n); nx = lambda n: Select(V.next, n); pv = lambda n: Select(V.prev, n)
        imp = lambda f: lambda n: Implies(N(n), f(n))
        yield 'nodes are live objects', imp(lambda n: And(n > 0, Select(V.alive, n), Select(V.live, n + s.doff), 0 <= Select(V.color, n), Select(V.color, n) <= 1))
        yield 'left child agrees with its parent', imp(lambda n: Implies(L(n) != 0, And(N(L(n)), P(L(n)) == n, lo(L(n)) == lo(n), hi(L(n)) == lab(n))))
        yield 'right child agrees with its parent', imp(lambda n: Implies(R_(n) != 0, And(N(R_(n)), P(R_(n)) == n, lo(R_(n)) == lab(n), hi(R_(n)) == hi(n))))
        yield 'parent has the node as a child', imp(lambda n: Implies(P(n) != 0, And(N(P(n)), Or(L(P(n)) == n, R_(P(n)) == n))))
        yield 'the root is the only node without a parent', imp(lambda n: And(V.root != 0, N(V.root), (P(n) == 0) == (n == V.root)))
        yield 'the root spans the whole tree', imp(lambda n: Implies(n == V.root, And(lo(n) == 0, hi(n) == 1)))
        yield 'the node lies in its span', imp(lambda n: And(0 <= lo(n), lo(n) < lab(n), lab(n) < hi(n), hi(n) <= 1))
        yield 'a node without left child follows its lower bound', imp(lambda n: Implies(L(n) == 0, lo(n) == s.PL(V, n)))
        yield 'a node without right child precedes its upper bound', imp(lambda n: Implies(R_(n) == 0, hi(n) == s.NL(V, n)))
        yield 'next and previous agree (next)', imp(lambda n: Implies(nx(n) != 0, And(N(nx(n)), pv(nx(n)) == n, lab(n) < lab(nx(n)))))
        yield 'next and previous agree (previous)', imp(lambda n: Implies(pv(n) != 0, And(N(pv(n)), nx(pv(n)) == n, lab(pv(n)) < lab(n))))
        yield 'of a node and its predecessor exactly one has a child between them', imp(lambda n: And(Implies(pv(n) != 0, (L(n) == 0) == (R_(pv(n)) != 0)), Implies(pv(n) == 0, L(n) == 0)))
        yield 'of a node and its successor exactly one has a child between them', imp(lambda n: And(Implies(nx(n) != 0, (R_(n) == 0) == (L(nx(n)) != 0)), Implies(nx(n) == 0, R_(n) == 0)))
        if rb:
            dn, dp = V.dn, V.dp
            dl = (lambda n: If(And(n == dp, L(n) == dn), 1, 0)) if dp is not None else (lambda n: IntVal(0))
            dr = (lambda n: If(And(n == dp, L(n) != dn), 1, 0)) if dp is not None else (lambda n: IntVal(0))
            yield 'black height is the same on every path', imp(lambda n: And(Select(V.bh, n) >= If(s.black(V, n), 1, 0), Select(V.bh, n) == If(s.black(V, n), 1, 0) + s.BH(V, L(n)) + dl(n), Select(V.bh, n) == If(s.black(V, n), 1, 0) + s.BH(V, R_(n)) + dr(n)))
            ex = (lambda n: BoolVal(True)) if V.exc is None else (lambda n: n != V.exc) if dp is None else (lambda n: And(n != V.exc, Or(V.exc == 0, P(n) != V.exc)))
            yield 'a red node is not the root and has a black parent', imp(lambda n: Implies(And(ex(n), Not(s.black(V, n))), And(P(n) != 0, s.black(V, P(n)))))
    def conds0(s, V):
        """what walking down needs"""
        N = lambda n: Select(V.N, n); lab = lambda n: Select(V.lab, n); lo = lambda n: Select(V.lo, n); hi = lambda n: Select(V.hi, n)
        L = lambda n: Select(V.left, n); R_ = lambda n: Select(V.right, n)
        yield 'nodes are live', lambda n: Implies(N(n), And(n > 0, Select(V.alive, n)))
        yield 'the node lies in its span', lambda n: Implies(N(n), And(lo(n) < lab(n), lab(n) < hi(n)))
        yield 'a left child spans the part before its parent', lambda n: Implies(And(N(n), L(n) != 0), And(N(L(n)), lo(L(n)) == lo(n), hi(L(n)) == lab(n)))
        yield 'a right child spans the part after its parent', lambda n: Implies(And(N(n), R_(n) != 0), And(N(R_(n)), lo(R_(n)) == lab(n), hi(R_(n)) == hi(n)))
    def rootcond(s, V): return Implies(V.root != 0, And(Select(V.N, V.root), Select(V.parent, V.root) == 0))
    def conds2(s, V):
        N = lambda n: Select(V.N, n); lab = lambda n: Select(V.lab, n)
        both = lambda f: lambda n, m: Implies(And(N(n), N(m)), f(n, m))
        yield 'no node lies between a node and its predecessor', both(lambda n, m: Implies(lab(m) < lab(n), And(Select(V.prev, n) != 0, lab(m) <= lab(Select(V.prev, n)))))
        yield 'no node lies between a node and its successor', both(lambda n, m: Implies(lab(m) > lab(n), And(Select(V.next, n) != 0, lab(m) >= lab(Select(V.next, n)))))
        yield 'no two nodes have the same position', both(lambda n, m: Implies(lab(m) == lab(n), m == n))
        if V.strict: yield 'keys are in strictly increasing order', both(lambda n, m: Implies(lab(n) < lab(m), s.key(V, n) < s.key(V, m)))
        else: yield 'keys are in order', both(lambda n, m: Implies(lab(n) < lab(m), s.key(V, n) <= s.key(V, m)))
    # ------------------------------------------------------------------ quantified facts, instantiated here
    def fact(s, ex, f, n=1):
        """f(x[, y]) holds for all nodes"""
        vs = FV[:n]; b = f(*vs)
        q = lambda *xs: substitute(b, *zip(vs, xs))
        ex.S.x['Q%d' % n] = ex.S.x.get('Q%d' % n, ()) + (q,)
        if n == 1:
            for g in ex.S.x.get('G', ()): s.inst(ex, q(g))
    def inst(s, ex, f):
        f = simplify(f)
        if not is_true(f): ex.assume(f)
    def note(s, ex, p):
        """p is a node the path touches; returns the term it is known by"""
        G = ex.S.x.get('G', ())
        if is_int_value(p): return p
        for g in G:
            if g.eq(p): return p
        if not is_const(p):
            if not ex.feasible(p != 0): return IntVal(0)
            for g in G:
                if not ex.feasible(p != g): return g
        ex.S.x['G'] = G + (p,)
        for f in ex.S.x.get('Q1', ()): s.inst(ex, f(p))
        return p
    def known(s, ex, V, rb=True):
        s.fact(ex, lambda n: And(*[f(n) for _, f in s.conds1(V, rb)]))
        s.fact(ex, lambda n, m: And(*[f(n, m) for _, f in s.conds2(V)]), 2)
        ex.assume(s.rootcond(V))
        ex.S.x['pm'] = ex.S.x.get('pm', ()) + tuple(getattr(V, f) for f in FLD)
    def prep(s, ex, hyps, goal):
        """stages of (hypotheses, goal), all quantifier-free"""
        sks = []
        def sk(g):
            if is_quantifier(g):
                vs = [fresh('sk_' + g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
                sks.extend(v for v in vs if v.sort() == I)
                return sk(substitute_vars(g.body(), *reversed(vs)))
            return g
        goal = sk(goal)
        qf = [h for h in hyps if not has_q(h)]; qs = [h for h in hyps if has_q(h)]
        G = list(ex.S.x.get('G', ())); Q1 = ex.S.x.get('Q1', ()); Q2 = ex.S.x.get('Q2', ())
        pm = []
        for m in ex.S.x.get('pm', ()):
            if not any(m.eq(x) for x in pm): pm.append(m)
        real = len(sks); sks = sks + s.extra(ex, sks)
        nb = [Select(m, x) for x in sks for m in pm]
        out = list(qf)
        for x in sks + nb:
            for f in Q1: out.append(f(x))
        gens1 = []; gens2 = []
        for q in qs:
            if is_quantifier(q) and q.is_forall():
                (gens1 if q.num_vars() == 1 else gens2).append(q)
        for q in gens1:
            if q.var_sort(0) != I: continue
            for x in G + sks + nb: out.append(substitute_vars(q.body(), x))
        if not (real > 1 and Q2): yield out, goal
        T = G + sks
        if not (Q2 or gens2): return
        pairs = [(a, b) for a in T for b in T if not a.eq(b)]
        o2 = list(out)
        for a, b in pairs:
            for f in Q2: o2.append(f(a, b))
            for q in gens2: o2.append(substitute_vars(q.body(), b, a))
        yield o2, goal
        if nb:
            o3 = list(o2)
            for a in nb:
                for b in T:
                    for f in Q2: o3.append(f(a, b)); o3.append(f(b, a))
            yield o3, goal
    def extra(s, ex, sks): return []
    def all1(s, f): n = Int('qn'); return ForAll([n], f(n))
    def all2(s, f): n, m = Ints('qn qm'); return ForAll([n, m], f(n, m))
    def prove(s, ex, V, kind='postcondition', what='', rb=True, two=True):
        ob = lambda n, f: ex.oblige(what + n, f, kind, False)
        ob('the root pointer is a node without parent, or null', s.rootcond(V))
        for n, f in s.conds1(V, rb): ob(n, s.all1(f))
        if two:
            for n, f in s.conds2(V): ob(n, s.all2(f))
    # ------------------------------------------------------------------ memory
    def load_hook(s, ex, p, key, idx, ty):
        if key in s.pfields:
            m = ex.mem(key, I)
            v = ex.select_simp(m, idx)
            v = s.note(ex, v if v is not None else Select(m, idx))
            return ex.wrapval(v, ty, key)
    def store_hook(s, ex, p, key, idx, v, ty):
        if key in s.nfields:
            for w in ('dirtyP',) if key == s.unit.fields['Node.parent'] else ('dirtyH',) if key in s.hfields else ():
                d = ex.S.x.get(w, ())
                if not any(idx.eq(x) for x in d): ex.S.x[w] = d + (idx,)
            ex.S.x['dirty'] = True
        return False
    def valid(s, ex, p, key, idx, size, how):
        if key == ('raw', 'vtable'): return None
        if key in s.nfields: return Select(ex.S.ghost['alive'], idx)
        os_ = s.objs_now(ex)
        if any(idx.eq(o) for o in os_): return None
        return Or(BoolVal(False), *[idx == o for o in os_])
    # ------------------------------------------------------------------ ghost witness for a changed tree
    def settle(s, ex, V, extra=()):
        """spans, black heights and root of the nodes changed since the last known state, read off the actual links"""
        X = list(ex.S.x.get('dirtyP', ())); H = list(ex.S.x.get('dirtyH', ()))
        for e in extra:
            if not is_int_value(e) and not any(e.eq(x) for x in H): H.append(e)
        ex.S.x['dirty'] = False; ex.S.x['dirtyP'] = ex.S.x['dirtyH'] = ()
        get = lambda m, x: s.note(ex, ex.select_simp(m, x))
        lo, hi = V.lo, V.hi
        cl = [(fresh('lo', R), fresh('hi', R)) for _ in X]
        for x, (a, b) in zip(X, cl): lo = Store(lo, x, a); hi = Store(hi, x, b)
        for x, (a, b) in zip(X, cl):
            # (each value is 0/1, the value of another entry, or a label: satisfiable whatever the links are; X holds no value twice or the equations agree)
            P = get(V.parent, x); l = Select(V.left, P) == x
            ex.assume(Implies(s.last(x, X), a == If(P == 0, RealVal(0), If(l, Select(lo, P), Select(V.lab, P)))))
            ex.assume(Implies(s.last(x, X), b == If(P == 0, RealVal(1), If(l, Select(V.lab, P), Select(hi, P)))))
        bh = V.bh
        for r in range(s.bh_rounds):
            n = bh
            for x in H:
                c = fresh('bh', I); L, R_ = get(V.left, x), get(V.right, x)
                ch = L if V.dp is None else If(And(x == V.dp, L == V.dn), R_, L)
                ex.assume(c == If(s.black(V, x), 1, 0) + If(ch != 0, Select(bh, ch), IntVal(0)))
                n = Store(n, x, c)
            bh = n
        W = V.but(lo=lo, hi=hi, bh=bh)
        # the root: the old one, or a changed node without a parent
        rt = fresh('root', I); rx = IntVal(0)
        for x in X: rx = If(And(Select(V.N, x), Select(V.parent, x) == 0), x, rx)
        ex.assume(rt == If(And(V.root != 0, Select(V.N, V.root), Select(V.parent, V.root) == 0), V.root, rx))
        W.root = s.note(ex, rt)
        return W
    bh_rounds = 4
    def last(s, x, X):
        """x is not overwritten by a later equal entry"""
        i = [k for k, y in enumerate(X) if y is x][0]
        return And(*[x != y for y in X[i+1:]])
    def begin(s, ex, a, v):
        if is_int_value(a) and a.as_long() < 0: ex.assume(Not(s.lv(ex, a, ex.S0)))      # a local variable's storage holds no element at entry
        super().begin(ex, a, v)
    # ------------------------------------------------------------------ calls
    def callee(s, ex, dem, name):
        if dem.startswith('Cmp::operator()'): return s.cmp
        if dem.startswith('Elem::'): return s.elem_callee(ex, dem, name)
        m = re.search(r'BinaryNode<Elem, Cmp>::(\w+)(?:<Elem>)?\(', dem)
        if m and m.group(1) in s.nodecalls: return getattr(s, 'c_' + m.group(1))
        m = re.search(r'BinaryTree<Elem, Cmp, void>::(\w+)\((.*)\)$', dem)
        if m and m.group(1) == 'destroySubtree': return s.c_destroy
        if m and m.group(1) == 'cloneSubtree': return s.c_clone if m.group(2).count('BinaryNode') == 1 else s.c_clone2
        return super().callee(ex, dem, name)
    nodecalls = ('getRoot', 'getMin', 'getMax', 'getTreeSize', 'find', 'insert', 'insertUnique', 'repairInserted', 'repairRemoved', 'remove')
    def cmp(s, ex, args, ins):
        a, b = args[1].addr(), args[2].addr()
        s.need(ex, a, 'a compared element'); s.need(ex, b, 'a compared element')
        x, y = RANKE(s.vl(ex, a)), RANKE(s.vl(ex, b)); r = ex.freshval(IntT(32), 'cmp'); neg = r >= (1 << 31)
        ex.assume(And(neg == (x < y), And(r > 0, Not(neg)) == (x > y)))
        return r
    def fresh_ghost(s, ex, k, names):
        for n in names: ex.setg('%s%d' % (n, k), fresh(n, ex.S.ghost['%s%d' % (n, k)].sort()))
    def havoc(s, ex, fields):
        """the callee may write these fields of the nodes of the tree, and no others"""
        V0 = {f: s.field(ex, f) for f in fields}
        for f in fields: ex.havoc_region(s.unit.fields['Node.' + f])
        N = s.calltree(ex).N if False else None
        return V0
    def cur(s, ex, k=0):
        V = s.view(ex, k)
        return V
    def ret(s, ex, v): return ex.typed(s.note(ex, v), s.unit.structs['Node'])
    # getRoot / getMin / getMax / find: read-only
    def c_getRoot(s, ex, args, ins):
        V = s.cur(ex); n = args[0].addr()
        s.readonly_pre(ex, V, n)
        return s.ret(ex, V.root)
    def readonly_pre(s, ex, V, n, null=False):
        if ex.S.x.get('dirty'):
            V = s.settle(ex, V); s.setview(ex, V); s.prove(ex, V, 'precondition', 'callee: ')
        ex.oblige('the node belongs to the tree', Or(n == 0, Select(V.N, n)) if null else Select(V.N, n), 'precondition')
    def c_getMin(s, ex, args, ins): return s.extreme(ex, args, 'left')
    def c_getMax(s, ex, args, ins): return s.extreme(ex, args, 'right')
    def ext_post(s, V, n, r, side):
        lab = lambda x: Select(V.lab, x)
        if side == 'left': return And(Select(V.N, r), Select(V.left, r) == 0, Select(V.lo, r) == Select(V.lo, n), lab(r) <= lab(n), Select(V.hi, r) <= Select(V.hi, n))
        return And(Select(V.N, r), Select(V.right, r) == 0, Select(V.hi, r) == Select(V.hi, n), lab(r) >= lab(n), Select(V.lo, r) >= Select(V.lo, n))
    def extreme(s, ex, args, side):
        V = s.cur(ex); n = args[0].addr(); s.readonly_pre(ex, V, n)
        r = fresh('ext', I); ex.assume(s.ext_post(V, n, r, side))
        return s.ret(ex, r)
    def find_absent(s, V, n, k): return lambda m: Implies(And(Select(V.N, m), Select(V.lo, n) < Select(V.lab, m), Select(V.lab, m) < Select(V.hi, n)), s.key(V, m) != k)
    def c_find(s, ex, args, ins):
        V = s.cur(ex); n = args[0].addr(); k = args[1].addr(); s.readonly_pre(ex, V, n)
        s.need(ex, k, 'the search key'); k = RANKE(s.vl(ex, k))
        r = fresh('found', I)
        ex.assume(Implies(r != 0, And(Select(V.N, r), s.key(V, r) == k)))
        s.fact(ex, lambda m: Implies(r == 0, s.find_absent(V, n, k)(m)))
        return s.ret(ex, r)
    # repairs: rewire the tree, keep nodes, order, threads and elements
    WIRE = ('left', 'right', 'parent', 'color')
    def rewired(s, ex, V):
        """state after a callee that only rewires: fields outside the tree unchanged, invariant as in the fresh view"""
        old = {f: s.field(ex, f) for f in s.WIRE}
        for f in s.WIRE: ex.havoc_region(s.unit.fields['Node.' + f])
        for f in s.WIRE:
            a, b = s.field(ex, f), old[f]
            s.fact(ex, lambda n, a=a, b=b: Implies(Not(Select(V.N, n)), Select(a, n) == Select(b, n)))
        s.fresh_ghost(ex, V.k, ('lo', 'hi', 'bh', 'root'))
        W = s.view(ex, V.k)
        s.known(ex, W)
        s.note(ex, W.root)
        return W
    def c_repairInserted(s, ex, args, ins):
        V = s.settle(ex, s.grown(ex), s.newnodes(ex)); n = s.note(ex, args[0].addr())
        V.exc = n; s.setview(ex, V)
        ex.oblige('repairInserted is given a red node of the tree', And(Select(V.N, n), Not(s.black(V, n))), 'precondition')
        s.prove(ex, V, 'precondition', 'repairInserted: ')
        s.rewired(ex, V)
    def c_repairRemoved(s, ex, args, ins):
        V = s.shrunk(ex); dn, dp = s.note(ex, args[0].addr()), s.note(ex, args[1].addr())
        V.exc = V.dn = dn; V.dp = dp
        V = s.settle(ex, V, (dn,)); s.setview(ex, V)
        ex.oblige('repairRemoved is given a position of the tree', s.position(V), 'precondition')
        s.prove(ex, V, 'precondition', 'repairRemoved: ')
        s.rewired(ex, V)
    def position(s, V):
        dn, dp = V.dn, V.dp
        return And(Implies(dn != 0, And(Select(V.N, dn), Select(V.parent, dn) == dp)), Implies(dp != 0, And(Select(V.N, dp), Or(Select(V.left, dp) == dn, Select(V.right, dp) == dn))))
    def grown(s, ex): return s.cur(ex)
    def newnodes(s, ex): return ()
    def shrunk(s, ex): return s.cur(ex)
    # insert(x)
    def bounds(s, V, n, k, strict):
        """the key belongs in the span of n"""
        lab = lambda m: Select(V.lab, m)
        return lambda m: Implies(Select(V.N, m), And(Implies(lab(m) <= Select(V.lo, n), (s.key(V, m) < k) if strict else (s.key(V, m) <= k)), Implies(lab(m) >= Select(V.hi, n), s.key(V, m) > k)))
    def detached(s, ex, V, x):
        return And(x > 0, Not(Select(V.N, x)), Select(V.alive, x), Select(V.live, x + s.doff), Select(V.left, x) == 0, Select(V.right, x) == 0, Select(V.color, x) == 1)
    ALLF = ('left', 'right', 'parent', 'color', 'next', 'prev')
    def inserted_facts(s, V, W, x, k=None):
        """relation of the view before and after an insertion of x: (name, formula or fact)"""
        yield 1, 'other nodes keep their position', lambda n: Implies(Select(V.N, n), Select(W.lab, n) == Select(V.lab, n))
        k = s.key(V, x) if k is None else k
        yield 1, 'the node is placed after all smaller and equal keys', lambda n: Implies(And(Select(V.N, n), s.key(V, n) <= k), Select(W.lab, n) < Select(W.lab, x))
        for f in s.ALLF:
            yield 1, 'frame: %s of other nodes unchanged' % f, lambda n, f=f: Implies(And(Not(Select(V.N, n)), n != x), Select(getattr(W, f), n) == Select(getattr(V, f), n))
    def c_insert(s, ex, args, ins): return s.do_insert(ex, args, False)
    def c_insertUnique(s, ex, args, ins): return s.do_insert(ex, args, True)
    def do_insert(s, ex, args, unique):
        V = s.cur(ex); n, x = args[0].addr(), args[1].addr()
        s.readonly_pre(ex, V, n); x = s.note(ex, x)
        strict = unique or s.strict
        ex.oblige('the inserted node is a detached red node', s.detached(ex, V, x), 'precondition')
        k = s.key(V, x)
        ex.oblige('the inserted key belongs below the node', s.all1(s.bounds(V, n, k, strict)), 'precondition', False)
        if s.strict and not unique: ex.oblige('the inserted key is not in the tree', s.all1(lambda m: Implies(Select(V.N, m), s.key(V, m) != k)), 'precondition', False)
        if unique:
            r = fresh('ins', I); dup = fresh('dup', BoolSort())
            ex.assume(r == If(dup, r, x)); 
        for f in s.ALLF: ex.havoc_region(s.unit.fields['Node.' + f])
        s.fresh_ghost(ex, 0, ('N', 'lab', 'lo', 'hi', 'bh', 'root'))
        W = s.view(ex)
        if unique:
            ex.assume(Implies(dup, And(Select(V.N, r), s.key(V, r) == k, W.root == V.root)))
            ex.assume(W.N == If(dup, V.N, Store(V.N, x, BoolVal(True))))
            for f in s.ALLF: ex.assume(Implies(dup, getattr(W, f) == getattr(V, f)))
            for f in ('lab', 'lo', 'hi', 'bh'): ex.assume(Implies(dup, getattr(W, f) == getattr(V, f)))
            s.fact(ex, lambda m: Implies(And(Not(dup), Select(V.N, m)), s.key(V, m) != k))
        else:
            r = x; ex.setg('N0', Store(V.N, x, BoolVal(True))); W = s.view(ex)
        for kd, nm, f in s.inserted_facts(V, W, x):
            s.fact(ex, (lambda m, f=f: Implies(Not(dup), f(m))) if unique else f)
        ex.S.x['added'] = True if not unique else dup
        s.known(ex, W); s.note(ex, W.root)
        return s.ret(ex, r)
    # remove(out)
    def evicted(s, ex, V, n):
        """the node that leaves the tree when the key of n is removed, and the node that then holds the next key"""
        two = And(Select(V.left, n) != 0, Select(V.right, n) != 0)
        return two, If(two, Select(V.next, n), n), If(two, n, Select(V.next, n))
    def removed_facts(s, V, W, n, u, S0live, W_live):
        yield 1, 'other nodes keep their key', lambda m: Implies(And(Select(V.N, m), m != u), Select(W.val, m + s.doff) == Select(V.val, If(m == n, u, m) + s.doff))
        yield 1, 'frame: elements outside the tree unchanged', lambda m: Implies(And(m > 0, Not(Select(V.N, m))), Select(W.val, m + s.doff) == Select(V.val, m + s.doff))
        yield 0, 'the removed key leaves with the evicted node', Select(W.val, u + s.doff) == Select(V.val, n + s.doff)
        yield 1, 'no element is constructed or destroyed', lambda m: Implies(m > 0, Select(W_live, m) == Select(S0live, m))
        for f in s.ALLF:
            yield 1, 'frame: %s of other nodes unchanged' % f, lambda m, f=f: Implies(Not(Select(V.N, m)), Select(getattr(W, f), m) == Select(getattr(V, f), m))
        yield 0, 'the evicted node keeps its links', And(Select(W.left, u) == Select(V.left, u), Select(W.right, u) == Select(V.right, u))
    def c_remove(s, ex, args, ins):
        V = s.cur(ex); n = args[0].addr(); s.readonly_pre(ex, V, n)
        two, u, w = s.evicted(ex, V, n)
        for f in s.ALLF: ex.havoc_region(s.unit.fields['Node.' + f])
        uu = fresh('evicted', I); ex.assume(uu == u); u = uu
        ww = fresh('valid', I); ex.assume(ww == w)
        key, idx = ex.region(args[1], PTR, None); ex.S.mem[key] = Store(ex.mem(key, I), idx, ww)
        ex.S.written.add(key)
        s.fresh_ghost(ex, 0, ('lo', 'hi', 'bh', 'root')); ex.setg('N0', Store(V.N, u, BoolVal(False)))
        ex.setg('val', fresh('val', AI)); lv = fresh('live', AB); ex.setg('live', lv)
        W = s.view(ex)
        s.note(ex, u); s.note(ex, ww)
        for kd, nm, f in s.removed_facts(V, W, n, u, V.live, lv):
            s.fact(ex, f) if kd else ex.assume(f)
        s.fact(ex, lambda m: Implies(m > 0, Select(lv, m + s.doff) == Select(V.live, m + s.doff)))
        s.known(ex, W); s.note(ex, W.root)
        ex.S.x['removed'] = (V, n, u, ww)
        return s.ret(ex, u)
    def c_getTreeSize(s, ex, args, ins):
        V = s.cur(ex); n = args[0].addr(); s.readonly_pre(ex, V, n, True)
        return If(n != 0, Select(ex.S.ghost['sz'], n), IntVal(0))
    def c_destroy(s, ex, args, ins): raise Unsupported('destroySubtree')
    def c_clone(s, ex, args, ins): raise Unsupported('cloneSubtree')
    c_clone2 = c_clone
    # ------------------------------------------------------------------ setup
    nodeargs = ()        # arguments that are nodes (constrained by pre)
    keys = ()            # arguments that are elements outside the tree or in it
    def ghosts(s, ex, k):
        for n, so in (('N', AB), ('lab', AR), ('lo', AR), ('hi', AR), ('bh', AI), ('root', I)): ex.setg('%s%d' % (n, k), Const('%s%d_0' % (n, k), so))
    def fieldmaps(s):
        s.doff = s.unit.delta['Node.data'] + s.unit.fields['Node.data'][1]
        s.nfields = {s.unit.fields['Node.' + f] for f in FLD + ('color',)}; s.hfields = {s.unit.fields['Node.' + f] for f in ('left', 'right', 'color')}; s.pfields = {s.unit.fields['Node.' + f] for f in FLD} | {s.unit.fields['Tree.root']}
    def setup(s, ex):
        s.fieldmaps(); s.heap(ex); s.life(ex); s.objects = []
        ex.assume(Not(s.lv(ex, IntVal(0))))
        s.t = []
        for k in range(s.nt): s.ghosts(ex, k)
        for k, i in enumerate(s.istree):
            a = s.argp(ex, i, 'Tree'); s.t.append(a); s.objects.append(a)
            ex.assume(s.rd(ex, 'Tree.malloc', a) > 0)
        for i in s.nodeargs:
            q = ex.typed(ex.args[i].base, s.unit.structs['Node']); ex.args[i] = q; ex.S.regs[ex.f.params[i][1]] = q
            ex.assume(q.addr() >= 0); s.note(ex, q.addr())
        for i in s.keys:
            ex.assume(And(ex.args[i].addr() > 0, s.lv(ex, ex.args[i].addr())))
        s.V0 = []
        for k in range(s.nt):
            V = s.entry_view(ex, k); s.V0.append(V)
            s.known(ex, V)
            if k < len(s.t):
                ex.assume(s.rd(ex, 'Tree.root', s.t[k]) == V.root); s.note(ex, V.root)
        s.pre(ex)
    def entry_view(s, ex, k): return s.view(ex, k)
    def pre(s, ex): pass
    def a(s, ex, i): return ex.args[i].addr()
    def unchanged(s, ex, fields=ALLF):
        """read-only: no field of any node is written, no element changes"""
        bad = [f for f in fields if s.field(ex, f) is not s.field(ex, f, ex.S0)]
        ex.oblige('nothing is written', BoolVal(not bad and not ex.S.log and ex.S.ghost['val'] is ex.S0.ghost['val'] and ex.S.ghost['live'] is ex.S0.ghost['live']), 'postcondition')
    # ------------------------------------------------------------------ loops
    def inv(s, ex, L):
        V = s.V0[0]
        for r, v in L.pphis:
            p = v.addr()
            yield '%s is null or a node' % r, Or(p == 0, Select(V.N, p))
            yield '%s is a node' % r, And(p != 0, Select(V.N, p))
            yield from s.inv1(ex, V, r, p)
            for r2, v2 in L.pphis:
                if r2 == r: continue
                q = v2.addr()
                yield '%s is %s->prev' % (r, r2), And(q != 0, Select(V.prev, q) == p)
                yield '%s is %s->next' % (r, r2), And(q != 0, Select(V.next, q) == p)
                yield from s.inv2(ex, V, r, p, r2, q)
    def inv1(s, ex, V, r, p): return ()
    def inv2(s, ex, V, r, p, r2, q): return ()
    def havoc_hook(s, ex, L):
        # loop pointers are nodes the path touches
        for i in ex.phi_list(L.h):
            v = ex.S.regs[i.res]
            if isinstance(v, Ptr): s.note(ex, v.addr())

class GetRoot(TS):
    nodeargs = (0,)
    def pre(s, ex): ex.assume(Select(s.V0[0].N, s.a(ex, 0)))
    def post(s, ex, ret):
        s.unchanged(ex); s.ens(ex, 'returns the root of the tree', ret.addr() == s.V0[0].root)
    def inv1(s, ex, V, r, p): return ()
class Extreme(GetRoot):
    side = 'left'
    def known(s, ex, V, rb=True):
        s.fact(ex, lambda n: And(*[f(n) for _, f in s.conds0(V)]))
        ex.S.x['pm'] = ex.S.x.get('pm', ()) + tuple(getattr(V, f) for f in FLD)
    def readonly_pre(s, ex, V, n, null=False):
        if ex.S.x.get('dirty'): raise Unsupported('a search that writes the tree')
        ex.oblige('the node belongs to the tree', Select(V.N, n), 'precondition')
    def post(s, ex, ret):
        s.unchanged(ex); s.ens(ex, 'returns the %s node of the subtree' % ('first' if s.side == 'left' else 'last'), s.ext_post(s.V0[0], s.a(ex, 0), ret.addr(), s.side))
    def inv1(s, ex, V, r, p):
        n = s.a(ex, 0)
        if s.side == 'left': yield r + ' starts where the subtree starts', And(Select(V.lo, p) == Select(V.lo, n), Select(V.lab, p) <= Select(V.lab, n), Select(V.hi, p) <= Select(V.hi, n))
        else: yield r + ' ends where the subtree ends', And(Select(V.hi, p) == Select(V.hi, n), Select(V.lab, p) >= Select(V.lab, n), Select(V.lo, p) >= Select(V.lo, n))
class Find(GetRoot):
    keys = (1,)
    def k(s, ex): return RANKE(Select(ex.S0.ghost['val'], s.a(ex, 1)))
    def post(s, ex, ret):
        V = s.V0[0]; r = ret.addr(); s.unchanged(ex)
        s.ens(ex, 'a node found is a node of the tree with the key', Implies(r != 0, And(Select(V.N, r), s.key(V, r) == s.k(ex))))
        ex.oblige('null is returned only when the subtree does not hold the key', s.all1(lambda m: Implies(r == 0, s.find_absent(V, s.a(ex, 0), s.k(ex))(m))), 'postcondition', False)
    def inv1(s, ex, V, r, p):
        n = s.a(ex, 0); k = RANKE(Select(ex.S.ghost['val'], s.a(ex, 1))); lab = lambda m: Select(V.lab, m)
        inn = lambda m: And(Select(V.N, m), Select(V.lo, n) < lab(m), lab(m) < Select(V.hi, n))
        yield 'the key is not outside the subtree of ' + r, s.all1(lambda m: Implies(And(p != 0, inn(m), Or(lab(m) <= Select(V.lo, p), lab(m) >= Select(V.hi, p))), s.key(V, m) != k))
        yield 'the key is nowhere when null: ' + r, s.all1(lambda m: Implies(And(p == 0, inn(m)), s.key(V, m) != k))
class FindEnd(GetRoot):
    """findMin/findMax: the first (last) node with the key"""
    side = 'prev'; keys = (1,); k = Find.k
    def pre(s, ex): ex.assume(s.a(ex, 0) == s.V0[0].root); ex.assume(Select(s.V0[0].N, s.a(ex, 0)))
    def result(s, ex, r):
        V = s.V0[0]; k = s.k(ex); s.unchanged(ex)
        s.ens(ex, 'a node found is a node of the tree with the key', Implies(r != 0, And(Select(V.N, r), s.key(V, r) == k)))
        ex.oblige('it is the %s such node' % ('first' if s.side == 'prev' else 'last'), s.all1(lambda m: Implies(And(r != 0, Select(V.N, m), s.key(V, m) == k), Select(V.lab, m) >= Select(V.lab, r) if s.side == 'prev' else Select(V.lab, m) <= Select(V.lab, r))), 'postcondition', False)
        ex.oblige('null is returned only when no node has the key', s.all1(lambda m: Implies(And(r == 0, Select(V.N, m)), s.key(V, m) != k)), 'postcondition', False)
    def post(s, ex, ret): s.result(ex, ret.addr())
    def inv1(s, ex, V, r, p): yield '%s has the key' % r, And(Select(V.N, p), s.key(V, p) == s.k(ex))

class RepairIns(TS):
    nodeargs = (0,)
    def entry_view(s, ex, k):
        V = s.view(ex, k); V.exc = s.a(ex, 0); return V
    def pre(s, ex):
        V = s.V0[0]; ex.assume(And(Select(V.N, V.exc), Not(s.black(V, V.exc))))
    def post(s, ex, ret):
        V0 = s.V0[0]
        V = s.settle(ex, s.view(ex)); s.setview(ex, V)
        s.prove(ex, V); s.rewire_frame(ex, V0, V)
    # a loop that repairs (instead of the recursion): the contract of the function is the loop invariant
    def wired(s, ex, L): return any(s.unit.fields['Node.' + f] in ex.havoc[L.h][0] for f in s.WIRE)
    def excphi(s, ex, L):
        L = L.at(ex.S)
        for r, v in L.pphis:
            e = L.entryphi.get(r)
            if isinstance(e, Ptr) and e.addr().eq(s.a(ex, 0)): return r
        return None
    def loop_state(s, ex, L):
        V = s.view(ex); r = s.excphi(ex, L)
        if r is None: return None
        V.exc = s.note(ex, ex.S.regs[r].addr()); return V
    def loop_pre(s, V): return And(Select(V.N, V.exc), Not(s.black(V, V.exc)))
    def loop_check(s, ex, L):
        V = s.loop_state(ex, L)
        if V is None: return
        V = s.settle(ex, V, (V.exc,)); s.setview(ex, V)
        if ex.final:
            ex.oblige('loop: the repaired position', s.loop_pre(V), 'invariant'); s.prove(ex, V, 'invariant', 'loop: '); s.rewire_frame(ex, s.V0[0], V, 'invariant')
    def loop_entry(s, ex, L):
        if s.wired(ex, L): s.loop_check(ex, L)
    def loop_step(s, ex, L):
        if ex.S.x.get('dirty'): s.loop_check(ex, L)
    def havoc_hook(s, ex, L):
        super().havoc_hook(ex, L)
        if not s.wired(ex, L): return
        V = s.loop_state(ex, L)
        if V is None: return
        ex.S.x['dirty'] = False; ex.S.x['dirtyP'] = ex.S.x['dirtyH'] = ()
        s.fresh_ghost(ex, 0, ('lo', 'hi', 'bh', 'root')); V = s.loop_state(ex, L)
        for f in s.WIRE:
            a, b = s.field(ex, f), s.field(ex, f, ex.S0)
            s.fact(ex, lambda n, a=a, b=b: Implies(Not(Select(V.N, n)), Select(a, n) == Select(b, n)))
        ex.assume(s.loop_pre(V)); s.known(ex, V); s.note(ex, V.root)
    def rewire_frame(s, ex, V0, V, kind='postcondition'):
        same = [f for f in ('next', 'prev') if s.field(ex, f) is not s.field(ex, f, ex.S0)]
        ex.oblige('threads and elements are untouched', BoolVal(not same and ex.S.ghost['val'] is ex.S0.ghost['val'] and ex.S.ghost['live'] is ex.S0.ghost['live'] and not ex.S.log), kind)
        for f in s.WIRE:
            ex.oblige('frame: %s of nodes outside the tree unchanged' % f, s.all1(lambda n: Implies(Not(Select(V0.N, n)), Select(s.field(ex, f), n) == Select(s.field(ex, f, ex.S0), n))), kind, False)
class RepairRem(RepairIns):
    nodeargs = (0, 1)
    def entry_view(s, ex, k):
        V = s.view(ex, k); V.exc = V.dn = s.a(ex, 0); V.dp = s.a(ex, 1); return V
    def pre(s, ex): ex.assume(s.position(s.V0[0]))
    def loop_state(s, ex, L):
        V = super().loop_state(ex, L)
        if V is None: return None
        V.dn = V.exc; r = None
        for q, v in L.at(ex.S).pphis:
            e = L.at(ex.S).entryphi.get(q)
            if isinstance(e, Ptr) and e.addr().eq(s.a(ex, 1)): r = v.addr()
        V.dp = s.note(ex, Select(V.parent, V.dn) if r is None else r)
        return V
    def loop_pre(s, V): return s.position(V)

class Insert(TS):
    nodeargs = (0, 1); unique = False
    def newnodes(s, ex): return (s.x,)
    def pre(s, ex):
        V = s.V0[0]; n, x = s.a(ex, 0), s.a(ex, 1); s.x = x
        ex.assume(And(Select(V.N, n), s.detached(ex, V, x)))
        s.fact(ex, s.bounds(V, n, s.key(V, x), s.strict or s.unique))
        if s.strict and not s.unique: s.fact(ex, lambda m: Implies(Select(V.N, m), s.key(V, m) != s.key(V, x)))
    def inv1(s, ex, V, r, p): yield 'the key belongs in the span of ' + r, s.all1(s.bounds(V, p, s.key(V, s.x), s.strict or s.unique))
    def grown(s, ex):
        V = s.view(ex)
        if ex.S.x.get('added') is None:
            ex.S.x['added'] = True
            l = fresh('label', R); V.N = Store(V.N, s.x, BoolVal(True))
            ex.assume(l == (s.PL(V, s.x) + s.NL(V, s.x)) / 2); V.lab = Store(V.lab, s.x, l)
        return V
    def post(s, ex, ret):
        V0 = s.V0[0]; x = s.x; r = ret.addr()
        if ex.S.x.get('added') is None and s.unique:
            # a duplicate was found
            s.unchanged(ex); s.ens(ex, 'returns the node that holds the key', And(Select(V0.N, r), s.key(V0, r) == s.key(V0, x))); return
        ad = ex.S.x.get('added')
        if s.unique and ad is not None and ad is not True:
            # result of the recursive call
            V = s.settle(ex, s.view(ex)); s.setview(ex, V)
            s.ens(ex, 'returns the inserted node or the node that holds the key', If(ad, And(Select(V0.N, r), s.key(V0, r) == s.key(V0, x)), r == x))
            s.ens(ex, 'the node is in the tree, unless its key was there', V.N == If(ad, V0.N, Store(V0.N, x, BoolVal(True))))
            s.ens(ex, 'nothing changes when the key was there', Implies(ad, And(*[s.field(ex, f) == s.field(ex, f, ex.S0) for f in s.ALLF])))
            ex.oblige('inserted only when the key was not there', s.all1(lambda m: Implies(And(Not(ad), Select(V0.N, m)), s.key(V0, m) != s.key(V0, x))), 'postcondition', False)
            s.rel(ex, V0, V, x, Not(ad)); s.prove(ex, V); return
        V = s.settle(ex, s.grown(ex), s.newnodes(ex)); s.setview(ex, V)
        s.ens(ex, 'returns the inserted node', r == x)
        s.ens(ex, 'exactly the given node is added', V.N == Store(V0.N, x, BoolVal(True)))
        if s.unique: ex.oblige('inserted only when the key was not there', s.all1(lambda m: Implies(Select(V0.N, m), s.key(V0, m) != s.key(V0, x))), 'postcondition', False)
        s.rel(ex, V0, V, x, None); s.prove(ex, V)
    def rel(s, ex, V0, V, x, g):
        s.ens(ex, 'elements are untouched', BoolVal(ex.S.ghost['val'] is ex.S0.ghost['val'] and ex.S.ghost['live'] is ex.S0.ghost['live']))
        for kd, nm, f in s.inserted_facts(V0, V, x):
            ex.oblige(nm, s.all1((lambda n, f=f: Implies(g, f(n))) if g is not None else f), 'postcondition', False)

class Remove(TS):
    nodeargs = (0,)
    def entry_view(s, ex, k):
        V = s.view(ex, k); V.skip = s.a(ex, 0); V.kn = fresh('key', I); return V
    def pre(s, ex):
        V = s.V0[0]; n = s.a(ex, 0); ex.assume(Select(V.N, n)); s.note(ex, Select(V.left, n)); s.note(ex, Select(V.right, n)); s.note(ex, Select(V.next, n))
        if len(ex.args) > 1:
            s.o = ex.args[1].addr(); ex.assume(s.o > 0); s.objects.append(s.o)
        s.two, s.u, s.w = s.evicted(ex, V, n)
        u = fresh('u', I); ex.assume(u == s.u); s.u = u; s.note(ex, u)
        for x in (n, u):
            for f in (V.left, V.right):
                c = s.note(ex, Select(f, x)); s.note(ex, Select(V.left, c)); s.note(ex, Select(V.right, c))
    def shrunk(s, ex):
        V = s.view(ex)
        V.N = Store(s.V0[0].N, s.u, BoolVal(False))
        return V
    def valid(s, ex, p, key, idx, size, how):
        if key == ('raw', 'ptr'): return idx == s.o if len(ex.args) > 1 else BoolVal(False)
        return super().valid(ex, p, key, idx, size, how)
    def post(s, ex, ret):
        V0 = s.V0[0]; n, u = s.a(ex, 0), s.u
        V = s.settle(ex, s.shrunk(ex)); s.setview(ex, V)
        s.ens(ex, 'returns the node that leaves the tree', ret.addr() == u)
        if len(ex.args) > 1: s.ens(ex, 'reports the node that now holds the next key', Select(ex.mem(('raw', 'ptr'), I), s.o) == s.w)
        for kd, nm, f in s.removed_facts(V0, V, n, u, ex.S0.ghost['live'], ex.S.ghost['live']):
            ex.oblige(nm, s.all1(f) if kd else f, 'postcondition', False)
        s.prove(ex, V)

class Remove0(Remove):
    """remove() without the result argument"""
    def post(s, ex, ret):
        V0 = s.V0[0]; n, u = s.a(ex, 0), s.u
        V = s.settle(ex, s.view(ex)); s.setview(ex, V)
        s.ens(ex, 'returns the node that leaves the tree', ret.addr() == u)
        s.ens(ex, 'exactly that node leaves the tree', V.N == Store(V0.N, u, BoolVal(False)))
        for kd, nm, f in s.removed_facts(V0, V, n, u, ex.S0.ghost['live'], ex.S.ghost['live']):
            ex.oblige(nm, s.all1(f) if kd else f, 'postcondition', False)
        s.prove(ex, V)
class TreeSize(GetRoot):
    """the size of a subtree is one more than the sizes of its children"""
    def pre(s, ex):
        V = s.V0[0]; n = s.a(ex, 0); ex.assume(Or(n == 0, Select(V.N, n)))
        ex.setg('sz', Const('sz0', AI)); z = lambda m: If(m != 0, Select(ex.S.ghost['sz'], m), IntVal(0)); sz = ex.S.ghost['sz']
        s.fact(ex, lambda m: Implies(Select(V.N, m), And(Select(sz, m) == 1 + If(Select(V.left, m) != 0, Select(sz, Select(V.left, m)), 0) + If(Select(V.right, m) != 0, Select(sz, Select(V.right, m)), 0), Select(sz, m) > 0, Select(sz, m) < (1 << 62))))
    def post(s, ex, ret):
        n = s.a(ex, 0); s.unchanged(ex)
        s.ens(ex, 'counts the nodes of the subtree', ret == If(n != 0, Select(ex.S.ghost['sz'], n), IntVal(0)))
class ItStep(TS):
    """iterators follow the thread links"""
    nodeargs = (0,); fld = 'next'; pf = False
    def pre(s, ex):
        V = s.V0[0]; n = s.a(ex, 0); ex.assume(Select(V.N, n))
        if s.pf: o = ex.args[1].addr(); ex.assume(o > 0); s.objects.append(o); s.o = o
    def valid(s, ex, p, key, idx, size, how):
        if s.pf and key == ('raw', 'ptr'): return idx == s.o
        return super().valid(ex, p, key, idx, size, how)
    def post(s, ex, ret):
        V = s.V0[0]; n = s.a(ex, 0); s.unchanged(ex); r = ret.addr(); lab = lambda m: Select(V.lab, m)
        if s.fld == 'data': s.ens(ex, 'refers to the data of the node', r == n + s.doff); return
        if s.pf: s.ens(ex, 'postfix step returns the old position', r == n); r = Select(ex.mem(('raw', 'ptr'), I), s.o)
        s.ens(ex, 'steps to a node of the tree or past the end', Or(r == 0, Select(V.N, r)))
        up = s.fld == 'next'; lt = (lambda a, b: a < b) if up else (lambda a, b: b < a)
        s.ens(ex, 'steps to the %s node in order' % ('next' if up else 'previous'), Implies(r != 0, lt(lab(n), lab(r))))
        ex.oblige('skips no node', s.all1(lambda m: Implies(And(Select(V.N, m), lt(lab(n), lab(m))), And(r != 0, Not(lt(lab(m), lab(r)))))), 'postcondition', False)
class ItEq(TS):
    nodeargs = (0, 1); eq = True
    def post(s, ex, ret):
        s.unchanged(ex); same = s.a(ex, 0) == s.a(ex, 1); r = ret
        s.ens(ex, 'iterators compare by node', r == (same if s.eq else Not(same)))
class ItConv(TS):
    nodeargs = (0,)
    def post(s, ex, ret): s.unchanged(ex); s.ens(ex, 'refers to the same node', ret.addr() == s.a(ex, 0))

# ---------------------------------------------------------------------- BinaryTree
class TO(TS):
    istree = (0,); empty0 = False
    def setup(s, ex):
        super().setup(ex)
    def pre(s, ex):
        s.cnt = []
        for k, t in enumerate(s.t):
            c = s.rd(ex, 'Tree.num', t); s.cnt.append(c)
            ex.assume(And((c == 0) == (s.V0[k].root == 0), 0 <= c, c < (1 << 62)))
        s.pre2(ex)
    def pre2(s, ex): pass
    def treeok(s, ex, V, cnt, k=0):
        t = s.t[k]
        s.ens(ex, 'the root pointer of the tree is the root', s.rd(ex, 'Tree.root', t) == V.root)
        s.ens(ex, 'the count is the number of nodes', s.rd(ex, 'Tree.num', t) == cnt)
        s.ens(ex, 'the tree keeps its allocator', s.rd(ex, 'Tree.malloc', t) == s.rd(ex, 'Tree.malloc', t, ex.S0))
    def same(s, ex):
        s.unchanged(ex)
        for k in range(len(s.t)): s.treeok(ex, s.V0[k], s.cnt[k], k)
    def on_alloc(s, ex, p, n):
        s.note(ex, p); ex.assume(Not(s.lv(ex, p + s.doff)))
        for i in s.keys: ex.assume(ex.args[i].addr() != p + s.doff)
    def on_free(s, ex, p): ex.oblige('the element of a freed node is destroyed first', Not(s.lv(ex, p + s.doff)), 'lifetime')
    def news(s, ex): return [e for e in ex.S.log if e[0] == 'alloc']
    def frees(s, ex): return [e for e in ex.S.log if e[0] == 'free']
    def lives(s, ex, f, vbut=()):
        g, g0 = ex.S.ghost, ex.S0.ghost
        ex.oblige('no other element is constructed or destroyed', s.all1(lambda a: Implies(a > 0, Select(g['live'], a) == f(a))), 'postcondition', False)
class TGet(TO):
    def __init__(s, n, u, expr=None, what='result'): super().__init__(n, u); s.expr = expr; s.what = what
    def post(s, ex, ret):
        s.same(ex); r = ret.addr() if isinstance(ret, Ptr) else ret
        s.ens(ex, s.what, r == s.expr(s, ex))
class TExt(TO):
    side = 'left'
    def post(s, ex, ret):
        V = s.V0[0]; r = ret.addr(); s.same(ex); lab = lambda m: Select(V.lab, m)
        s.ens(ex, 'a node of the tree, or null when it is empty', If(V.root == 0, r == 0, Select(V.N, r)))
        s.note(ex, Select(V.prev if s.side == 'left' else V.next, r))
        s.ens(ex, 'no neighbour further out', Implies(r != 0, Select(V.prev if s.side == 'left' else V.next, r) == 0))
        ex.oblige('no node is further out', s.all1(lambda m: Implies(And(r != 0, Select(V.N, m)), lab(r) <= lab(m) if s.side == 'left' else lab(r) >= lab(m))), 'postcondition', False)
class TFind(TO):
    keys = (1,); k = Find.k
    def result(s, ex, r): pass
    def post(s, ex, ret):
        V = s.V0[0]; r = ret.addr(); s.same(ex); k = s.k(ex)
        s.ens(ex, 'a node found is a node of the tree with the key', Implies(r != 0, And(Select(V.N, r), s.key(V, r) == k)))
        ex.oblige('null is returned only when no node has the key', s.all1(lambda m: Implies(And(r == 0, Select(V.N, m)), s.key(V, m) != k)), 'postcondition', False)
class TBegin(TFind):
    side = 'prev'; inv1 = FindEnd.inv1
    def post(s, ex, ret):
        s.same(ex); s.cnt; FindEnd.result(s, ex, ret.addr())
class TEndK(TFind):
    inv1 = FindEnd.inv1
    def post(s, ex, ret):
        V = s.V0[0]; r = ret.addr(); s.same(ex); k = s.k(ex)
        s.ens(ex, 'a node of the tree with a larger key, or past the end', Implies(r != 0, And(Select(V.N, r), s.key(V, r) > k)))
        ex.oblige('every node before it that does not precede the key has the key', s.all1(lambda m: Implies(And(r != 0, Select(V.N, m), s.key(V, m) > k), Select(V.lab, r) <= Select(V.lab, m))), 'postcondition', False)
        w = Int('qw')
        ex.oblige('the end is returned only when no larger key follows a node with the key', s.all2(lambda m, m2: Implies(And(r == 0, Select(V.N, m), Select(V.N, m2), s.key(V, m) == k), s.key(V, m2) <= k)), 'postcondition', False)
class TCtor(TO):
    mal = False
    def setup(s, ex):
        super().setup(ex)
    def entry_view(s, ex, k):
        V = s.view(ex, k); V.N = K(I, BoolVal(False)); ex.setg('N%d' % k, V.N); V.root = IntVal(0); ex.setg('root%d' % k, IntVal(0)); return V
    raw = True
    def pre(s, ex):
        if s.mal: ex.assume(ex.args[1].addr() > 0)
    def post(s, ex, ret):
        s.ens(ex, 'the tree is empty', And(s.rd(ex, 'Tree.root', s.t[0]) == 0, s.rd(ex, 'Tree.num', s.t[0]) == 0))
        want = ex.args[1].addr() if s.mal else Select(ex.mem(('raw', 'ptr'), I), ex.global_ptr('gMalloc').addr())
        s.ens(ex, 'the given allocator is used' if s.mal else 'the global allocator is used', s.rd(ex, 'Tree.malloc', s.t[0]) == want)
        s.ens(ex, 'nothing is allocated', BoolVal(not ex.S.log))
class TInsert(TO):
    keys = (1,); rv = False; unique = False; repl = False
    def pre2(s, ex):
        V = s.V0[0]; a = ex.args[1].addr()
        if s.rv: s.fact(ex, lambda m: Implies(Select(V.N, m), m + s.doff != a))
        if s.strict and not s.unique: s.fact(ex, lambda m: Implies(Select(V.N, m), s.key(V, m) != RANKE(Select(V.val, a))))
    def post(s, ex, ret):
        V0 = s.V0[0]; a = ex.args[1].addr(); v = s.given(ex); k = RANKE(Select(ex.S0.ghost['val'], a)); nw = s.news(ex)
        s.ens(ex, 'at most one node is created and none is freed', BoolVal(len(nw) <= 1 and not s.frees(ex)))
        if s.unique and not nw:
            # the key was there
            n = ret.addr() - s.doff; g, g0 = ex.S.ghost, ex.S0.ghost
            s.ens(ex, 'refers to the element that has the key', And(Select(V0.N, n), s.key(V0, n) == k))
            bad = [f for f in s.ALLF if s.field(ex, f) is not s.field(ex, f, ex.S0)]
            s.ens(ex, 'no node is changed', BoolVal(not bad and g['live'] is g0['live']))
            if s.repl: s.ens(ex, 'the element holds the new value', Select(g['val'], n + s.doff) == v)
            ex.oblige('no other element changes', s.all1(lambda m: Implies(And(Select(g0['live'], m), *([m != n + s.doff] if s.repl else []), *([m != a] if s.rv and s.repl else [])), Select(g['val'], m) == Select(g0['val'], m))), 'postcondition', False)
            V = s.view(ex); s.treeok(ex, V, s.cnt[0])
            if s.repl: s.prove(ex, V)
            return
        x = nw[0][1]; s.x = x; W = s.view(ex)
        s.ens(ex, 'the block holds a node', And(nw[0][2] >= s.unit.sizeof('Node'), nw[0][3] % 8 == 0))
        if ex.S.x.get('added') is None:
            s.ens(ex, 'a tree without root gets the node as root', V0.root == 0)
            W.N = Store(V0.N, x, BoolVal(True)); W.lab = Store(W.lab, x, RealVal(1) / 2)
            W = s.settle(ex, W, (x,))
        else: W = s.settle(ex, W)
        s.setview(ex, W)
        s.ens(ex, 'exactly one node is added', And(W.N == Store(V0.N, x, BoolVal(True)), Not(Select(V0.N, x))))
        s.ens(ex, 'refers to the inserted element', ret.addr() == x + s.doff)
        s.ens(ex, 'the inserted element has the given value', Select(W.val, x + s.doff) == v)
        if s.unique: ex.oblige('added only when the key was not there', s.all1(lambda m: Implies(Select(V0.N, m), s.key(V0, m) != k)), 'postcondition', False)
        for kd, nm, f in s.inserted_facts(V0, W, x, k): ex.oblige(nm, s.all1(f) if kd else f, 'postcondition', False)
        s.lives(ex, lambda m: Or(m == x + s.doff, Select(ex.S0.ghost['live'], m)))
        ex.oblige('no other element changes', s.all1(lambda m: Implies(And(Select(ex.S0.ghost['live'], m), *([m != a] if s.rv else [])), Select(W.val, m) == Select(ex.S0.ghost['val'], m))), 'postcondition', False)
        s.treeok(ex, W, s.cnt[0] + 1); s.prove(ex, W)
    def given(s, ex): return Select(ex.S0.ghost['val'], ex.args[1].addr())
    def inv1(s, ex, V, r, p):
        k = RANKE(Select(ex.S.ghost['val'], ex.args[1].addr()))
        yield 'the key belongs in the span of ' + r, s.all1(lambda m: Implies(p != 0, s.bounds(V, p, k, True)(m)))
    def inv2(s, ex, V, r, p, r2, q):
        k = RANKE(Select(ex.S.ghost['val'], ex.args[1].addr()))
        yield 'the place of the key is below %s when %s is null' % (r2, r), Implies(p == 0, And(q != 0, Select(V.N, q), s.key(V, q) != k, Implies(s.key(V, q) > k, Select(V.left, q) == 0), Implies(s.key(V, q) < k, Select(V.right, q) == 0)))
class TRemove(TO):
    nodeargs = (1,); how = 'node'
    def entry_view(s, ex, k):
        V = s.view(ex, k)
        if s.how == 'node': V.skip = s.a(ex, 1); V.kn = fresh('key', I)
        return V
    def pre2(s, ex):
        if s.how != 'key':
            n = s.a(ex, 1); c = Select(s.V0[0].N, n); ex.assume(Or(n == 0, c) if s.how == 'it' else c)
    def valid(s, ex, p, key, idx, size, how):
        if key == ('raw', 'ptr'): return None if is_int_value(idx) and idx.as_long() < 0 else BoolVal(False)
        return super().valid(ex, p, key, idx, size, how)
    def post(s, ex, ret):
        V0 = s.V0[0]; rm = ex.S.x.get('removed'); g, g0 = ex.S.ghost, ex.S0.ghost
        if s.how == 'key': k = RANKE(Select(g0['val'], ex.args[1].addr()))
        if rm is None:
            s.same(ex); s.ens(ex, 'nothing is freed', BoolVal(not ex.S.log))
            if s.how == 'key':
                s.ens(ex, 'reports that nothing was removed', Not(ret))
                ex.oblige('nothing is removed only when no node has the key', s.all1(lambda m: Implies(Select(V0.N, m), s.key(V0, m) != k)), 'postcondition', False)
            else: s.ens(ex, 'removing the end does nothing and gives the end', And(BoolVal(s.how == 'it'), s.a(ex, 1) == 0, ret.addr() == 0))
            return
        _, n, u, w = rm
        if s.how == 'key': s.ens(ex, 'a node with the key is removed', And(Select(V0.N, n), s.key(V0, n) == k, ret))
        else:
            s.ens(ex, 'the given node is removed', n == s.a(ex, 1)); s.ens(ex, 'gives the node that now holds the next key', ret.addr() == w)
        W = s.settle(ex, s.view(ex)); s.setview(ex, W)
        s.ens(ex, 'exactly one node leaves the tree', And(Select(V0.N, u), W.N == Store(V0.N, u, BoolVal(False))))
        fr = s.frees(ex)
        s.ens(ex, 'exactly that node is freed', And(BoolVal(len(fr) == 1 and not s.news(ex)), fr[0][1] == u) if fr else BoolVal(False))
        s.lives(ex, lambda m: And(m != u + s.doff, Select(g0['live'], m)))
        for kd, nm, f in s.removed_facts(V0, W, n, u, None, None):
            if nm.startswith(('other nodes', 'frame: elements', 'the removed key')): ex.oblige(nm, s.all1(f) if kd else f, 'postcondition', False)
        s.treeok(ex, W, s.cnt[0] - 1); s.prove(ex, W)

def contracts(u):
    u.setptr(PTRS)
    C = {}
    def add(n, c, **k):
        key = n
        while key in C: key += "'"
        x = c(key, u); x.fname = n
        for a, v in k.items(): setattr(x, a, v)
        x.cost = {RepairRem: 9, Remove: 5, RepairIns: 4, Insert: 2}.get(c, 1)
        C[key] = x
    for n in u.mod.funcs:
        d = u.dem(n)
        m = re.search(r'BinaryNode<Elem, Cmp>::(\w+)(?:<Elem>)?\(', d)
        if m:
            f = m.group(1)
            if f == 'getRoot': add(n, GetRoot)
            elif f == 'getMin': add(n, Extreme)
            elif f == 'getMax': add(n, Extreme, side='right')
            elif f == 'find': add(n, Find)
            elif f == 'repairInserted': add(n, RepairIns)
            elif f == 'repairRemoved': add(n, RepairRem)
            elif f == 'insert': add(n, Insert); add(n, Insert, strict=True)
            elif f == 'insertUnique': add(n, Insert, unique=True, strict=True)
            elif f == 'remove' and '&' in d: add(n, Remove); add(n, Remove, strict=True)
            elif f == 'getTreeSize': add(n, TreeSize)
    def W(n, c, *a, **k):
        if u.fn(n) is not None: C[n] = c(n, u, *a); [setattr(C[n], x, v) for x, v in k.items()]
    def W2(n, c, **k):
        for st in (False, True):
            if u.fn(n) is not None:
                x = c(n + "'" * st, u); x.fname = n; x.strict = st; [setattr(x, a, v) for a, v in k.items()]; C[n + "'" * st] = x
    W('node_findMin', FindEnd); W('node_findMax', FindEnd, side='next'); W('node_remove0', Remove0); W('node_size', TreeSize)
    W('it_inc', ItStep); W('it_dec', ItStep, fld='prev'); W('cit_inc', ItStep); W('it_pinc', ItStep, pf=True); W('it_pdec', ItStep, fld='prev', pf=True)
    for n in ('it_deref', 'it_arrow', 'cit_deref'): W(n, ItStep, fld='data')
    W('it_eq', ItEq); W('it_ne', ItEq, eq=False); W('it_conv', ItConv)
    W('tree_ctor', TCtor); W('tree_ctorM', TCtor, mal=True)
    for n in ('tree_num', 'tree_count', 'tree_getSize'): W(n, TGet, lambda s, ex: s.cnt[0], 'returns the number of nodes')
    for n in ('tree_croot', 'tree_root'): W(n, TGet, lambda s, ex: s.V0[0].root, 'returns the root')
    for n in ('tree_cend', 'tree_end'): W(n, TGet, lambda s, ex: IntVal(0), 'the end is past every node')
    for n in ('tree_cmin', 'tree_min', 'tree_cbegin', 'tree_begin'): W(n, TExt)
    for n in ('tree_cmax', 'tree_max'): W(n, TExt, side='right')
    for n in ('tree_cfindNode', 'tree_findNode', 'tree_cfind', 'tree_find'): W(n, TFind)
    for n in ('tree_cbeginK', 'tree_beginK'): W(n, TBegin)
    for n in ('tree_cendK', 'tree_endK'): W(n, TEndK, side='next')
    W2('tree_insert', TInsert); W2('tree_insert_rv', TInsert, rv=True)
    W2('tree_insertUnique', TInsert, unique=True); W2('tree_insertUnique_rv', TInsert, unique=True, rv=True)
    W2('tree_replace', TInsert, unique=True, repl=True); W2('tree_replace_rv', TInsert, unique=True, repl=True, rv=True)
    W2('tree_removeNode', TRemove); W2('tree_removeIt', TRemove, how='it'); W2('tree_remove', TRemove, how='key', nodeargs=(), keys=(1,))
    return C
