"""Copying, moving and destroying trees (containers/tree.h), on the vocabulary of tree.py.

Static ghost views of the two trees at entry (0: the destination, 1: the source) and a ghost correspondence of source nodes and
copies (cp: source node -> its copy, orig: copy -> source node).  A subtree function is about the nodes of the ghost tree whose
label lies in the span of its root.  `cloned` says what a copied node looks like, `images` that every new or reused node is a copy."""
from tree import *

class TL(TS):
    nt = 2; dest = False; source = False; deep = False; nodeargs = ()
    # ------------------------------------------------------------------ vocabulary
    def insp(s, V, n): return lambda m: And(Select(V.N, m), Select(V.lo, n) < Select(V.lab, m), Select(V.lab, m) < Select(V.hi, n))
    def shape(s, ex, V, cur=True):
        """what a subtree of the destination looks like, at one node (in the current or the entry state)"""
        S = ex.S if cur else ex.S0; g = S.ghost
        fl = {f: s.field(ex, f, S) for f in FLD}
        lab = lambda n: Select(V.lab, n); lo = lambda n: Select(V.lo, n); hi = lambda n: Select(V.hi, n)
        L = lambda n: Select(fl['left'], n); R_ = lambda n: Select(fl['right'], n)
        yield 'nodes are live objects', lambda n: And(n > 0, Select(g['alive'], n), Select(g['live'], n + s.doff))
        yield 'the node lies in its span', lambda n: And(0 <= lo(n), lo(n) < lab(n), lab(n) < hi(n), hi(n) <= 1)
        yield 'a left child spans the part before its parent', lambda n: Implies(L(n) != 0, And(Select(V.N, L(n)), lo(L(n)) == lo(n), hi(L(n)) == lab(n)))
        yield 'a right child spans the part after its parent', lambda n: Implies(R_(n) != 0, And(Select(V.N, R_(n)), lo(R_(n)) == lab(n), hi(R_(n)) == hi(n)))
        yield 'the first node of the tree has no predecessor', lambda n: Implies(And(L(n) == 0, lo(n) == 0), Select(fl['prev'], n) == 0)
        yield 'the last node of the tree has no successor', lambda n: Implies(And(R_(n) == 0, hi(n) == 1), Select(fl['next'], n) == 0)
    def shape2(s, ex, V, cur=True):
        S = ex.S if cur else ex.S0
        l, r = s.field(ex, 'left', S), s.field(ex, 'right', S); lab = lambda n: Select(V.lab, n)
        yield 'no node lies below a missing left child', lambda n, m: Implies(And(Select(l, n) == 0, Select(V.lo, n) < lab(m)), lab(m) >= lab(n))
        yield 'no node lies below a missing right child', lambda n, m: Implies(And(Select(r, n) == 0, lab(m) < Select(V.hi, n)), lab(m) <= lab(n))
        yield 'no two nodes have the same position', lambda n, m: Implies(lab(m) == lab(n), m == n)
    def know_shape(s, ex, V, n):
        i = s.insp(V, n); f1 = [f for _, f in s.shape(ex, V)]; f2 = [f for _, f in s.shape2(ex, V)]
        s.fact(ex, lambda m: Implies(i(m), And(*[f(m) for f in f1])))
        s.fact(ex, lambda a, b: Implies(And(i(a), i(b)), And(*[f(a, b) for f in f2])), 2)
    def show_shape(s, ex, V, n):
        i = s.insp(V, n)
        ex.oblige('callee: the root of the subtree is a node', Select(V.N, n), 'precondition')
        for k, f in s.shape(ex, V): ex.oblige('callee: ' + k, s.all1(lambda m, f=f: Implies(i(m), f(m))), 'precondition', False)
        for k, f in s.shape2(ex, V): ex.oblige('callee: ' + k, s.all2(lambda a, b, f=f: Implies(And(i(a), i(b)), f(a, b))), 'precondition', False)
    def alls(s, f): n = Int('qs'); return ForAll([n], f(n))
    # a state a clone starts from or ends in
    def snap(s, ex, S=None):
        S = S or ex.S; g = S.ghost
        return View(alive=g['alive'], live=g['live'], val=g['val'], cp=g['cp'], orig=g['orig'], **{f: s.field(ex, f, S) for f in s.ALLF})
    def src_intact(s, ex):
        V = s.V1; B = s.snap(ex)
        def f(m): return Implies(Select(V.N, m), And(m > 0, Select(B.alive, m), Select(B.live, m + s.doff), Select(B.val, m + s.doff) == Select(V.val, m + s.doff), *[Select(getattr(B, k), m) == Select(getattr(V, k), m) for k in s.ALLF]))
        return f
    def clone_facts(s, A, B, d, src):
        """relation of the states before and after cloning src (into the subtree of d): (about: 's'ource or 'd'estination nodes, name, formula)"""
        V0, V1 = s.V0[0], s.V1
        in1 = s.insp(V1, src); in0 = s.insp(V0, d) if d is not None else (lambda x: BoolVal(False))
        c = lambda m: Select(B.cp, m); at = lambda f, m: Select(getattr(B, f), c(m)); of = lambda f, m: Select(getattr(V1, f), m)
        pa = IntVal(0) if d is None else Select(A.parent, d)
        def end(free):
            return lambda v: v == 0 if d is None else Implies(free, v == 0)
        lo0, hi0 = (Select(V0.lo, d) == 0, Select(V0.hi, d) == 1) if d is not None else (None, None)
        S = lambda f: (lambda m: Implies(in1(m), f(m)))
        kept = lambda x: And(Select(A.alive, x), Not(in0(x)))
        yield 's', 'every source node has a live copy', S(lambda m: And(c(m) > 0, Select(B.alive, c(m)), Select(B.live, c(m) + s.doff), Select(B.orig, c(m)) == m))
        yield 's', 'a copy is a new node, or one of the destination', S(lambda m: Or(Not(Select(A.alive, c(m))), in0(c(m))))
        yield 's', 'the copy holds an equal element', S(lambda m: Select(B.val, c(m) + s.doff) == Select(V1.val, m + s.doff))
        yield 's', 'the copy has the color of the node', S(lambda m: at('color', m) == of('color', m))
        for f in ('left', 'right'):
            yield 's', 'the %s child of the copy is the copy of the %s child' % (f, f), S(lambda m, f=f: And(Implies(of(f, m) != 0, in1(of(f, m))), at(f, m) == If(of(f, m) != 0, c(of(f, m)), IntVal(0))))
        yield 's', 'the parent of the copy is the copy of the parent', S(lambda m: If(m == src, at('parent', m) == pa, And(in1(of('parent', m)), at('parent', m) == c(of('parent', m)))))
        yield 's', 'the successor of the copy is the copy of the successor', S(lambda m: If(And(of('next', m) != 0, Select(V1.lab, of('next', m)) < Select(V1.hi, src)), at('next', m) == c(of('next', m)), end(hi0)(at('next', m))))
        yield 's', 'the predecessor of the copy is the copy of the predecessor', S(lambda m: If(And(of('prev', m) != 0, Select(V1.lab, of('prev', m)) > Select(V1.lo, src)), at('prev', m) == c(of('prev', m)), end(lo0)(at('prev', m))))
        yield 's', 'copies elsewhere are kept', lambda m: Implies(Not(in1(m)), c(m) == Select(A.cp, m))
        yield 'd', 'every new or reused node is a copy', lambda x: Implies(And(Select(B.alive, x), Or(Not(Select(A.alive, x)), in0(x))), And(in1(Select(B.orig, x)), Select(B.cp, Select(B.orig, x)) == x))
        yield 'd', 'frame: other nodes are kept', lambda x: Implies(kept(x), And(Select(B.alive, x), Select(B.orig, x) == Select(A.orig, x)))
        for f in s.ALLF: yield 'd', 'frame: %s of other nodes unchanged' % f, lambda x, f=f: Implies(kept(x), Select(getattr(B, f), x) == Select(getattr(A, f), x))
        yield 'd', 'elements live exactly in the nodes', lambda x: If(Or(in0(x), And(Select(B.alive, x), Not(Select(A.alive, x)))), Select(B.live, x + s.doff) == Select(B.alive, x), Select(B.live, x + s.doff) == Select(A.live, x + s.doff))
        yield 'd', 'frame: other elements keep their values', lambda x: Implies(And(Select(A.live, x + s.doff), Not(in0(x))), Select(B.val, x + s.doff) == Select(A.val, x + s.doff))
        if d is not None: yield '', 'the root is copied into the root', Select(B.cp, src) == d
    # ------------------------------------------------------------------ calls
    def malloc_alloc(s, ex, args, ins):
        ex.oblige('nodes come from the allocator of the tree', args[0].addr() == s.rd(ex, 'Tree.malloc', s.t[0]), 'memory')
        return super().malloc_alloc(ex, args, ins)
    def malloc_free(s, ex, args, ins):
        ex.oblige('nodes go back to the allocator of the tree', args[0].addr() == s.rd(ex, 'Tree.malloc', s.t[0]), 'memory')
        return super().malloc_free(ex, args, ins)
    def on_alloc(s, ex, p, n):
        s.note(ex, p); ex.assume(Not(s.lv(ex, p + s.doff)))
        src = s.cur_src(ex)
        if src is not None: ex.setg('cp', Store(ex.S.ghost['cp'], src, p)); ex.setg('orig', Store(ex.S.ghost['orig'], p, src))
    def on_free(s, ex, p): ex.oblige('the element of a freed node is destroyed first', Not(s.lv(ex, p + s.doff)), 'lifetime')
    def cur_src(s, ex): return None
    def owner(s, ex, args): ex.oblige('callee: the tree is the same', args[0].addr() == s.t[0], 'precondition')
    def c_destroy(s, ex, args, ins):
        n = s.note(ex, args[1].addr()); V = s.V0[0]; s.owner(ex, args); s.show_shape(ex, V, n)
        g = ex.S.ghost; a, l = g['alive'], g['live']; i = s.insp(V, n)
        ex.setg('alive', fresh('alive', AB)); ex.setg('live', fresh('live', AB)); b, k = ex.S.ghost['alive'], ex.S.ghost['live']
        s.fact(ex, lambda x: And(Select(b, x) == And(Select(a, x), Not(i(x))), Select(k, x + s.doff) == And(Select(l, x + s.doff), Not(i(x)))))
        ex.S.log.append(('subtree', n))
        return None
    def c_clone(s, ex, args, ins): return s.do_clone(ex, args, None, args[1].addr())
    def c_clone2(s, ex, args, ins): return s.do_clone(ex, args, args[1].addr(), args[2].addr())
    def do_clone(s, ex, args, d, src):
        s.owner(ex, args); src = s.note(ex, src)
        ex.oblige('callee: the copied subtree is one of the source', Select(s.V1.N, src), 'precondition')
        ex.oblige('callee: the source is unchanged', s.alls(s.src_intact(ex)), 'precondition', False)
        if d is not None: d = s.note(ex, d); s.show_shape(ex, s.V0[0], d)
        A = s.snap(ex)
        for f in s.ALLF: ex.havoc_region(s.unit.fields['Node.' + f])
        for n, so in (('alive', AB), ('live', AB), ('val', AI), ('cp', AI), ('orig', AI)): ex.setg(n, fresh(n, so))
        B = s.snap(ex)
        for k, nm, f in s.clone_facts(A, B, d, src):
            s.fact(ex, f) if k else ex.assume(f)
        r = s.note(ex, Select(B.cp, src)); s.note(ex, r)
        ex.S.log.append(('clone', src))
        return ex.typed(r, s.unit.structs['Node'])
    # the first or last node of a copied subtree
    def extreme(s, ex, args, side):
        n = s.note(ex, args[0].addr()); B = s.snap(ex); V = s.V1; ls = s.note(ex, Select(B.orig, n))
        ex.oblige('callee: a copied subtree', And(Select(V.N, ls), Select(B.cp, ls) == n), 'precondition')
        o = lambda x: Select(B.orig, x)
        FN = lambda x: And(Select(V.N, o(x)), Select(V.lo, ls) <= Select(V.lo, o(x)), Select(V.hi, o(x)) <= Select(V.hi, ls), Select(B.cp, o(x)) == x)
        lo, lab, hi = (lambda x, a=a: Select(a, o(x)) for a in (V.lo, V.lab, V.hi))
        L = lambda x: Select(B.left, x); R_ = lambda x: Select(B.right, x)
        for k, f in (('nodes are live', lambda x: And(x > 0, Select(B.alive, x))), ('the node lies in its span', lambda x: And(lo(x) < lab(x), lab(x) < hi(x))),
                     ('a left child spans the part before its parent', lambda x: Implies(L(x) != 0, And(FN(L(x)), lo(L(x)) == lo(x), hi(L(x)) == lab(x)))),
                     ('a right child spans the part after its parent', lambda x: Implies(R_(x) != 0, And(FN(R_(x)), lo(R_(x)) == lab(x), hi(R_(x)) == hi(x))))):
            ex.oblige('callee: ' + k, s.all1(lambda x, f=f: Implies(FN(x), f(x))), 'precondition', False)
        r = s.note(ex, fresh('ext', I)); m = fresh('ext_of', I); ex.assume(m == o(r))
        ex.assume(And(FN(r), *([L(r) == 0, Select(V.lo, m) == Select(V.lo, ls)] if side == 'left' else [R_(r) == 0, Select(V.hi, m) == Select(V.hi, ls)])))
        s.note(ex, m); s.note(ex, Select(V.left if side == 'left' else V.right, m)); s.note(ex, Select(V.prev if side == 'left' else V.next, m))
        return ex.typed(r, s.unit.structs['Node'])
    # ------------------------------------------------------------------ instantiation
    def prep(s, ex, hyps, goal):
        sks = []
        def sk(g):
            if is_quantifier(g):
                vs = [fresh('sk_' + g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
                sks.extend((v, g.var_name(i)) for i, v in enumerate(vs) if v.sort() == I)
                return sk(substitute_vars(g.body(), *reversed(vs)))
            return g
        goal = sk(goal)
        qf = [h for h in hyps if not has_q(h)]
        if any(has_q(h) for h in hyps): raise Unsupported('a quantified hypothesis')
        G = list(ex.S.x.get('G', ())); Q1 = ex.S.x.get('Q1', ()); Q2 = ex.S.x.get('Q2', ())
        cp, orig = ex.S.ghost['cp'], ex.S.ghost['orig']
        T = []; near = []; out = list(qf)
        for x, nm in sks:
            issrc = nm in ('qs', 'qk')
            if nm == 'qk': out.extend(f(x) for f in Q1); x = Select(s.at1, x)      # a key: the source node that holds it
            m = x if issrc else Select(orig, x)
            T += [x] if issrc else [x, m]
            if issrc: near.append(Select(cp, m))
            if s.source:
                for f in FLD: y = Select(getattr(s.V1, f), m); near += [y, Select(cp, y)]
                if s.deep: near += [Select(s.V1.right, Select(s.V1.prev, m)), Select(s.V1.left, Select(s.V1.next, m))]
            if not issrc and s.dest: near += [Select(getattr(s.V0[0], f), x) for f in (FLD if s.deep else ('left', 'right'))]
        for x in T + near:
            for f in Q1: out.append(f(x))
        if len(sks) < 2: yield out, goal
        if not Q2: 
            if len(sks) > 1: yield out, goal
            return
        def pairs(A, B): return [(a, b) for a in A for b in B if not a.eq(b)]
        o2 = list(out)
        for a, b in pairs(T, T) + pairs(T, G) + pairs(G, T) + pairs(G, G):
            for f in Q2: o2.append(f(a, b))
        yield o2, goal
        o3 = list(o2)
        for a, b in pairs(T, near) + pairs(near, T) + pairs(near, G) + pairs(G, near):
            for f in Q2: o3.append(f(a, b))
        yield o3, goal
    # ------------------------------------------------------------------ setup
    def setup(s, ex):
        s.fieldmaps(); s.heap(ex); s.life(ex); s.objects = []; s.t = []
        ex.setg('cp', Const('cp0', AI)); ex.setg('orig', Const('orig0', AI))
        ex.assume(Not(s.lv(ex, IntVal(0))))
        for k in range(2): s.ghosts(ex, k)
        for i in s.istree:
            a = s.argp(ex, i, 'Tree'); s.t.append(a); s.objects.append(a)
            ex.assume(s.rd(ex, 'Tree.malloc', a) > 0)
        for i in s.nodeargs:
            q = ex.typed(ex.args[i].base, s.unit.structs['Node']); ex.args[i] = q; ex.S.regs[ex.f.params[i][1]] = q
            ex.assume(q.addr() > 0); s.note(ex, q.addr())
        s.V0 = [s.view(ex, 0), s.view(ex, 1)]; s.V1 = s.V0[1]
        if s.source and s.dest: s.fact(ex, lambda m: Not(And(Select(s.V0[0].N, m), Select(s.V1.N, m))))
        s.pre(ex)
    istree = (0,)

class Destroy(TL):
    nodeargs = (1,); dest = True
    def pre(s, ex):
        n = s.a(ex, 1); ex.assume(Select(s.V0[0].N, n)); s.know_shape(ex, s.V0[0], n); ex.assume(s.insp(s.V0[0], n)(n))
    def post(s, ex, ret):
        V = s.V0[0]; i = s.insp(V, s.a(ex, 1)); g, g0 = ex.S.ghost, ex.S0.ghost
        ex.oblige('exactly the nodes of the subtree are freed', s.all1(lambda x: Select(g['alive'], x) == And(Select(g0['alive'], x), Not(i(x)))), 'postcondition', False)
        ex.oblige('exactly their elements are destroyed', s.all1(lambda x: Select(g['live'], x + s.doff) == And(Select(g0['live'], x + s.doff), Not(i(x)))), 'postcondition', False)
        bad = [f for f in s.ALLF if s.field(ex, f) is not s.field(ex, f, ex.S0)]
        s.ens(ex, 'nothing else is written', BoolVal(not bad and g['val'] is g0['val']))
class Clone(TL):
    source = True; nodeargs = (1,); d = None
    def src(s, ex): return s.a(ex, len(ex.args) - 1)
    def cur_src(s, ex): return s.src(ex)
    def pre(s, ex):
        n = s.src(ex); s.known(ex, s.V1); ex.assume(Select(s.V1.N, n))
        if s.dest:
            d = s.d = s.a(ex, 1); ex.assume(Select(s.V0[0].N, d)); s.know_shape(ex, s.V0[0], d); ex.assume(s.insp(s.V0[0], d)(d))
            ex.setg('cp', Store(ex.S.ghost['cp'], n, d)); ex.setg('orig', Store(ex.S.ghost['orig'], d, n))
    def post(s, ex, ret):
        A, B = s.snap(ex, ex.S0), s.snap(ex); src = s.src(ex)
        s.ens(ex, 'returns the copy of the root', ret.addr() == Select(B.cp, src))
        for k, nm, f in s.clone_facts(A, B, s.d, src):
            ex.oblige(nm, s.alls(f) if k == 's' else s.all1(f) if k else f, 'postcondition', False)

class Whole(TL):
    """operations on whole trees: argument 0 the tree (view 0), argument 1 the other one (view 1)"""
    raw = False; mode = 'copy'; deep = True
    def setup(s, ex):
        s.source = len(s.istree) > 1; s.dest = not s.raw
        super().setup(ex)
    def pre(s, ex):
        if s.raw:
            s.V0[0].N = K(I, BoolVal(False)); s.V0[0].root = IntVal(0); ex.setg('N0', s.V0[0].N); ex.setg('root0', IntVal(0))
            s.fact(ex, lambda x: Not(Select(s.V0[0].N, x)))
        s.cnt = [None, None]
        for k, t in enumerate(s.t):
            if k == 0 and s.raw: continue
            V = s.V0[k]; c = s.cnt[k] = s.rd(ex, 'Tree.num', t); s.known(ex, V)
            ex.assume(And(s.rd(ex, 'Tree.root', t) == V.root, (c == 0) == (V.root == 0), 0 <= c, c < (1 << 62))); s.note(ex, V.root)
        if s.source: ex.assume(s.t[0] != s.t[1])
    def fields_same(s, ex, but=()):
        return BoolVal(not [f for f in s.ALLF if s.field(ex, f) is not s.field(ex, f, ex.S0)] and ex.S.ghost['val'] is ex.S0.ghost['val'])
    def released(s, ex):
        V = s.V0[0]; g, g0 = ex.S.ghost, ex.S0.ghost
        ex.oblige('exactly the nodes of the tree are freed', s.all1(lambda x: Select(g['alive'], x) == And(Select(g0['alive'], x), Not(Select(V.N, x)))), 'postcondition', False)
        ex.oblige('exactly their elements are destroyed', s.all1(lambda x: Select(g['live'], x + s.doff) == And(Select(g0['live'], x + s.doff), Not(Select(V.N, x)))), 'postcondition', False)
        s.ens(ex, 'nothing else is written', s.fields_same(ex))
    def post(s, ex, ret):
        V0, V1 = s.V0; t = s.t[0]; g, g0 = ex.S.ghost, ex.S0.ghost
        if s.mode in ('assign', 'massign'): s.ens(ex, 'returns the tree', ret.addr() == t)
        if s.mode in ('empty', 'dtor'):
            s.released(ex)
            if s.mode == 'empty': s.ens(ex, 'the tree is empty and keeps its allocator', And(s.rd(ex, 'Tree.root', t) == 0, s.rd(ex, 'Tree.num', t) == 0, s.rd(ex, 'Tree.malloc', t) == s.rd(ex, 'Tree.malloc', t, ex.S0)))
            return
        o = s.t[1]; was = lambda f: s.rd(ex, 'Tree.' + f, o, ex.S0)
        s.ens(ex, 'the tree has as many nodes as the source had', s.rd(ex, 'Tree.num', t) == s.cnt[1])
        if s.mode in ('move', 'massign'):
            s.released(ex)
            s.ens(ex, 'the tree takes over the nodes of the source', s.rd(ex, 'Tree.root', t) == V1.root)
            s.ens(ex, 'and its allocator', s.rd(ex, 'Tree.malloc', t) == was('malloc'))
            s.ens(ex, 'the source is empty and keeps its allocator', And(s.rd(ex, 'Tree.root', o) == 0, s.rd(ex, 'Tree.num', o) == 0, s.rd(ex, 'Tree.malloc', o) == was('malloc')))
            ex.oblige('the nodes stay as they were', s.alls(s.src_intact(ex)), 'postcondition', False)
            return
        s.ens(ex, 'the allocator is the global one' if s.raw else 'the tree keeps its allocator', s.rd(ex, 'Tree.malloc', t) == (Select(ex.mem(('raw', 'ptr'), I), ex.global_ptr('gMalloc').addr()) if s.raw else s.rd(ex, 'Tree.malloc', t, ex.S0)))
        # the copy, as a tree
        NN = fresh('N', AB); lab, lo, hi = (fresh(n, AR) for n in ('lab', 'lo', 'hi')); bh = fresh('bh', AI); B = s.snap(ex); og = lambda x: Select(B.orig, x)
        s.fact(ex, lambda x: And(Select(NN, x) == And(Select(B.alive, x), Or(Not(Select(g0['alive'], x)), Select(V0.N, x))), *[Select(a, x) == Select(b, og(x)) for a, b in ((lab, V1.lab), (lo, V1.lo), (hi, V1.hi), (bh, V1.bh))]))
        W = s.view(ex, 0).but(N=NN, lab=lab, lo=lo, hi=hi, bh=bh, root=If(V1.root == 0, IntVal(0), Select(B.cp, V1.root)))
        s.setview(ex, W); W.root = s.note(ex, W.root)
        s.ens(ex, 'the root pointer of the tree is the root', s.rd(ex, 'Tree.root', t) == W.root)
        s.prove(ex, W, what='the copy: ')
        ex.oblige('every element of the source has an equal one at the same position of the copy', s.alls(lambda m: Implies(Select(V1.N, m), And(Select(NN, Select(B.cp, m)), og(Select(B.cp, m)) == m, Select(lab, Select(B.cp, m)) == Select(V1.lab, m), Select(B.val, Select(B.cp, m) + s.doff) == Select(V1.val, m + s.doff)))), 'postcondition', False)
        ex.oblige('every node of the copy is the copy of a source node', s.all1(lambda x: Implies(Select(NN, x), And(Select(V1.N, og(x)), Select(B.cp, og(x)) == x))), 'postcondition', False)
        ex.oblige('the copy shares no node with the source', s.all1(lambda x: Not(And(Select(NN, x), Select(V1.N, x)))), 'postcondition', False)
        ex.oblige('the source is unchanged', s.alls(s.src_intact(ex)), 'postcondition', False)
        s.ens(ex, 'the source tree object is unchanged', And(*[s.rd(ex, 'Tree.' + f, o) == was(f) for f in ('root', 'num', 'malloc')]))
        ex.oblige('other blocks are not freed', s.all1(lambda x: Implies(And(Select(g0['alive'], x), Not(Select(V0.N, x))), Select(B.alive, x))), 'postcondition', False)
        ex.oblige('exactly the elements of the nodes live', s.all1(lambda x: Select(B.live, x + s.doff) == If(Or(Select(V0.N, x), Select(NN, x)), Select(NN, x), Select(g0['live'], x + s.doff))), 'postcondition', False)
        ex.oblige('other elements keep their values', s.all1(lambda x: Implies(And(Select(g0['live'], x + s.doff), Not(Select(V0.N, x))), Select(B.val, x + s.doff) == Select(g0['val'], x + s.doff))), 'postcondition', False)

def contracts(u):
    u.setptr(PTRS); C = {}
    for n in u.mod.funcs:
        m = re.search(r'BinaryTree<Elem, Cmp, void>::(destroySubtree|cloneSubtree)\((.*)\)$', u.dem(n))
        if m:
            C[n] = Destroy(n, u) if m.group(1) == 'destroySubtree' else Clone(n, u)
            if m.group(2).count('BinaryNode') == 2: C[n].dest = True; C[n].nodeargs = (1, 2)
            C[n].cost = 5
    for n, md, raw in (('tree_copy', 'copy', True), ('tree_assign', 'assign', False), ('tree_move', 'move', True), ('tree_massign', 'massign', False), ('tree_empty', 'empty', False), ('tree_dtor', 'dtor', False)):
        c = C[n] = Whole(n, u); c.mode = md; c.raw = raw; c.istree = (0,) if md in ('empty', 'dtor') else (0, 1); c.cost = 4
    return C
