"""Contracts for containers/set.h (sets over a threaded red-black tree), over an opaque element and comparison.

Two levels.  The operations of the tree a set uses are verified on the vocabulary of tree.py and treelife.py, for unique keys, and
there also for their meaning in terms of KEYS (`ranks`): a ghost map at: key -> the node that holds it (0: none).
The operations of the set are then verified over that contract only: the state of a set is N (its nodes), at, kk (the key of a
node), and F0..F4 say that at and kk are inverse, that the links `next` go to the next larger key, and that nothing lies between.
Obligations are quantified over nodes (variable qn) and keys (qk)."""
from tree import *
import treelife
UNIT = 'set.cpp'
TREE = r'BinaryTree<Elem, Cmp, void>::'
KEEP = (r'BinaryNode<Elem, Cmp>::(getRoot|getMin|getMax|getTreeSize|insert|insertUnique|repairInserted|repairRemoved)\(',
        r'BinaryNode<Elem, Cmp>::find<', r'BinaryNode<Elem, Cmp>::remove\(BinaryNode<Elem, Cmp>\*&\)',
        TREE + r'(destroySubtree|cloneSubtree)\(', TREE + r'(getMin|getMax|removeNode|empty|~BinaryTree|BinaryTree)\((?!\))', TREE + r'(getMin|getMax|empty|~BinaryTree)\(\)',
        TREE + r'(findNode|begin|end|insertUnique)<', r'Set<Elem, Cmp, void>::operator(\+=|\*=|-=)\(')
GMIN = TREE + '(getMin|getMax|empty|~BinaryTree)'
def all_n(f): n = Int('qn'); return ForAll([n], f(n))
def all_k(f): k = Int('qk'); return ForAll([k], f(k))
def all_nk(f): n, k = Ints('qn qk'); return ForAll([n, k], f(n, k))

# ---------------------------------------------------------------------- the tree, in terms of keys
class RK:
    """mixin for a tree-level contract: adds the postconditions about keys"""
    strict = True; lean = None
    def setup(s, ex):
        super().setup(ex)
        s.at0 = Const('at0', AI); V = s.V0[0]; s.ats = [s.at0]
        s.rankfacts(ex, V, s.at0)
        for i in s.keys:
            k = RANKE(Select(ex.S0.ghost['val'], ex.args[i].addr()) if False else Select(ex.S.ghost['val'], ex.args[i].addr()))
            ex.assume(s.f2(V, s.at0)(k)); s.note(ex, Select(s.at0, k))
    def f1(s, V, at): return lambda n: Implies(Select(V.N, n), Select(at, s.key(V, n)) == n)
    def f2(s, V, at): return lambda k: Implies(Select(at, k) != 0, And(Select(V.N, Select(at, k)), s.key(V, Select(at, k)) == k))
    def rankfacts(s, ex, V, at):
        s.fact(ex, s.f1(V, at)); s.fact(ex, s.f2(V, at))
    def extra(s, ex, sks): return [Select(a, x) for a in s.ats for x in sks]
    def ranks(s, ex, W, at):
        """W, with the map at, describes a set"""
        s.ats = [s.at0, at]; nx = lambda n: Select(W.next, n)
        def o(n, f, lean=None):
            """lean: from what was just proved of W alone"""
            s.lean = lean; ex.oblige('keys: ' + n, f, 'postcondition', False); s.lean = None
        o('every node is found under its key', s.all1(s.f1(W, at)))
        o('every key is held by its node', all_k(s.f2(W, at)))
        o('nodes are live', s.all1(lambda n: Implies(Select(W.N, n), And(n > 0, Select(W.alive, n), Select(W.live, n + s.doff)))))
        c1 = lambda n: [f(n) for _, f in s.conds1(W)]; c2 = lambda n, m: [f(*p) for _, f in s.conds2(W) for p in ((n, m), (m, n))]
        between = lambda n, m: Implies(And(Select(W.N, n), Select(W.N, m), s.key(W, m) > s.key(W, n)), And(nx(n) != 0, s.key(W, m) >= s.key(W, nx(n))))
        o('the successor is a node with a larger key', s.all1(lambda n: Implies(And(Select(W.N, n), nx(n) != 0), And(Select(W.N, nx(n)), s.key(W, nx(n)) > s.key(W, n)))), lambda n: c1(n) + c2(n, nx(n)))
        o('no node lies between a node and its successor', s.all2(between), lambda n, m: c1(n) + c2(n, m) + c2(nx(n), m))
        o('no key lies between a node and its successor', all_nk(lambda n, k: Implies(And(Select(W.N, n), Select(at, k) != 0, k > s.key(W, n)), And(nx(n) != 0, k >= s.key(W, nx(n))))), lambda n, k: [s.f2(W, at)(k), between(n, Select(at, k))])
    def prep(s, ex, hyps, goal):
        f = s.lean
        if f is None: yield from super().prep(ex, hyps, goal); return
        vs = [fresh('sk_' + goal.var_name(i), goal.var_sort(i)) for i in range(goal.num_vars())]
        yield f(*vs), substitute_vars(goal.body(), *reversed(vs))
class RExt(RK, TExt):
    def post(s, ex, ret):
        super().post(ex, ret); r = ret.addr(); V = s.V0[0]
        ex.oblige('keys: no key is further out', all_k(lambda k: Implies(Select(s.at0, k) != 0, And(r != 0, (k >= s.key(V, r)) if s.side == 'left' else (k <= s.key(V, r))))), 'postcondition', False)
        s.ens(ex, 'keys: a node, or null', Implies(r != 0, Select(V.N, r)))
class RFind(RK, TFind):
    def post(s, ex, ret):
        super().post(ex, ret); s.ens(ex, 'keys: finds the node of the key', ret.addr() == Select(s.at0, s.k(ex)))
class RBegin(RK, TBegin):
    def post(s, ex, ret):
        super().post(ex, ret); s.ens(ex, 'keys: finds the node of the key', ret.addr() == Select(s.at0, s.k(ex)))
class REndK(RK, TEndK):
    side = 'next'
    def post(s, ex, ret):
        super().post(ex, ret); r = ret.addr(); V = s.V0[0]; k = s.k(ex); held = Select(s.at0, k) != 0
        s.ens(ex, 'keys: a node with a larger key, or the end', Implies(r != 0, And(Select(V.N, r), s.key(V, r) > k)))
        ex.oblige('keys: no key lies between', all_k(lambda j: Implies(And(Select(s.at0, j) != 0, j > k, Or(r != 0, held)), And(r != 0, j >= s.key(V, r)))), 'postcondition', False)
class RInsert(RK, TInsert):
    unique = True
    def post(s, ex, ret):
        super().post(ex, ret); V0 = s.V0[0]; nw = s.news(ex); k = RANKE(Select(ex.S0.ghost['val'], ex.args[1].addr()))
        if not nw: 
            s.ens(ex, 'keys: refers to the node of the key', ret.addr() == Select(s.at0, k) + s.doff); at = s.at0; W = s.view(ex)
            s.ens(ex, 'keys: the key was there', Select(s.at0, k) != 0)
        else:
            x = s.x; s.fact(ex, lambda m: Implies(Select(V0.N, m), s.key(V0, m) != k)); s.note(ex, Select(s.at0, k))
            s.ens(ex, 'keys: the key was not there', Select(s.at0, k) == 0)
            at = Store(s.at0, k, x); W = s.view(ex)
            for kd, nm, f in s.inserted_facts(V0, W, x, k):
                if kd: s.fact(ex, f)
            g0 = ex.S0.ghost; a = ex.args[1].addr()
            s.fact(ex, lambda m: Implies(And(Select(V0.N, m), *([m + s.doff != a] if s.rv else [])), Select(W.val, m + s.doff) == Select(g0['val'], m + s.doff)))
            s.known(ex, W)
        s.ranks(ex, W, at)
        for f in ('next',): ex.oblige('keys: frame: %s of other nodes unchanged' % f, s.all1(lambda n: Implies(Not(Select(W.N, n)), Select(s.field(ex, f), n) == Select(s.field(ex, f, ex.S0), n))), 'postcondition', False)
class RRemove(RK, TRemove):
    def post(s, ex, ret):
        super().post(ex, ret); rm = ex.S.x.get('removed')
        if rm is None: return
        V0 = s.V0[0]; _, n, u, w = rm; W = s.view(ex)
        two, eu, ew = s.evicted(ex, V0, n)
        s.ens(ex, 'keys: the node that leaves is the given one, or its successor', And(u == eu, Implies(two, u != 0), w == ew))
        ku = If(u == n, V0.kn, s.key(V0, u))
        for kd, nm, f in s.removed_facts(V0, W, n, u, None, None):
            if nm.startswith(('other nodes', 'frame: elements', 'the removed key')): s.fact(ex, f) if kd else ex.assume(f)
        s.known(ex, W)
        s.ranks(ex, W, Store(Store(s.at0, ku, n), V0.kn, IntVal(0)))
        ex.oblige('keys: frame: successors of other nodes unchanged', s.all1(lambda m: Implies(Not(Select(V0.N, m)), Select(s.field(ex, 'next'), m) == Select(s.field(ex, 'next', ex.S0), m))), 'postcondition', False)
class RWhole(treelife.Whole):
    strict = True
    def setup(s, ex):
        super().setup(ex)
        s.at1 = Const('at1', AI)
        if s.source:
            V = s.V1; at = s.at1
            s.fact(ex, lambda n: Implies(Select(V.N, n), Select(at, s.key(V, n)) == n))
            s.fact(ex, lambda k: Implies(Select(at, k) != 0, And(Select(V.N, Select(at, k)), s.key(V, Select(at, k)) == k)))
    def callee(s, ex, dem, name):
        return s.c_empty if dem == 'BinaryTree<Elem, Cmp, void>::empty()' else super().callee(ex, dem, name)
    def c_empty(s, ex, args, ins):
        s.owner(ex, args); V = s.V0[0]; s.prove(ex, V, 'precondition', 'callee: ')
        g = ex.S.ghost; a, l = g['alive'], g['live']; b, k = fresh('alive', AB), fresh('live', AB); ex.setg('alive', b); ex.setg('live', k)
        s.fact(ex, lambda x: And(Select(b, x) == And(Select(a, x), Not(Select(V.N, x))), Select(k, x + s.doff) == And(Select(l, x + s.doff), Not(Select(V.N, x)))))
        for fld in ('root', 'num'):
            kf = s.unit.fields['Tree.' + fld]; d = s.unit.delta.get('Tree.' + fld, 0); t = s.t[0]
            ex.S.mem[kf] = Store(ex.mem(kf, I), t + d if d else t, IntVal(0)); ex.S.written.add(kf)
    def prove(s, ex, V, *a, **k):
        super().prove(ex, V, *a, **k)
        if s.mode == 'copy': s.W = V
    def post(s, ex, ret):
        super().post(ex, ret)
        if s.mode != 'copy': return
        B = s.snap(ex); W = s.W; V1 = s.V1; at1 = s.at1; nx = lambda n: Select(W.next, n); s.known(ex, W); s.cpath = B.cp
        at = lambda k: If(Select(at1, k) != 0, Select(B.cp, Select(at1, k)), IntVal(0))
        o = lambda n, f: ex.oblige('keys: ' + n, f, 'postcondition', False)
        o('every node is found under its key', s.all1(lambda n: Implies(Select(W.N, n), at(s.key(W, n)) == n)))
        o('every key is held by its node', all_k(lambda k: Implies(at(k) != 0, And(Select(W.N, at(k)), s.key(W, at(k)) == k, Select(W.val, at(k) + s.doff) == Select(V1.val, Select(at1, k) + s.doff)))))
        o('every key of the source is held', all_k(lambda k: Implies(Select(at1, k) != 0, at(k) != 0)))
        o('the successor is a node with a larger key', s.all1(lambda n: Implies(And(Select(W.N, n), nx(n) != 0), And(Select(W.N, nx(n)), s.key(W, nx(n)) > s.key(W, n)))))
        o('no key lies between a node and its successor', all_nk(lambda n, k: Implies(And(Select(W.N, n), at(k) != 0, k > s.key(W, n)), And(nx(n) != 0, k >= s.key(W, nx(n))))))

# ---------------------------------------------------------------------- the set
class SV:
    def __init__(s, **k): s.__dict__.update(k)
class RS(TS):
    """contract of a set operation; sets[i]: argument i is a set (view i); keys: elements; outs: elements written"""
    sets = (0,); outs = (); alias = False; raw = False; strict = True; timeout = 10000
    def __init__(s, *a): super().__init__(*a); s.memo = {}; s.hypf = {}; s.sets_ = {}; s.keep = []
    # ---- state
    def sv(s, ex, k, S=None):
        S = S or ex.S; g = S.ghost
        return SV(k=k, N=g['N%d' % k], at=g['at%d' % k], kk=g['kk%d' % k], next=s.field(ex, 'next', S), val=g['val'], live=g['live'], alive=g['alive'])
    def setsv(s, ex, k, **m):
        for n, v in m.items(): ex.setg('%s%d' % (n, k), v)
    def newview(s, ex, addr):
        k = ex.S.x.get('nv', 0); ex.S.x['nv'] = k + 1
        ex.S.x['trees'] = ex.S.x.get('trees', ()) + ((addr, k),)
        return k
    def viewof(s, ex, addr):
        for a, k in reversed(ex.S.x.get('trees', ())):
            if a is not None and a.eq(addr): return k
        raise Unsupported('an operation on a tree that is not known: %s' % addr)
    def views(s, ex): return [k for a, k in ex.S.x.get('trees', ()) if a is not None]
    def F(s, A, skip=None):
        N = lambda n: Select(A.N, n); nx = lambda n: Select(A.next, n); kk = lambda n: Select(A.kk, n); at = lambda k: Select(A.at, k)
        yield 'n', 'nodes are live objects', lambda n: Implies(N(n), And(n > 0, Select(A.alive, n), Select(A.live, n + s.doff)))
        yield 'n', 'nodes hold their key', lambda n: Implies(And(N(n), *([] if skip is None else [n != skip])), kk(n) == RANKE(Select(A.val, n + s.doff)))
        yield 'n', 'every node is found under its key', lambda n: Implies(N(n), at(kk(n)) == n)
        yield 'k', 'every key is held by its node', lambda k: Implies(at(k) != 0, And(N(at(k)), kk(at(k)) == k))
        yield 'n', 'the successor is a node with a larger key', lambda n: Implies(And(N(n), nx(n) != 0), And(N(nx(n)), kk(nx(n)) > kk(n)))
        yield 'nk', 'no key lies between a node and its successor', lambda n, k: Implies(And(N(n), at(k) != 0, k > kk(n)), And(nx(n) != 0, k >= kk(nx(n))))
    Q = {'n': staticmethod(all_n), 'k': staticmethod(all_k), 'nk': staticmethod(all_nk)}
    def q(s, kd): return {'n': all_n, 'k': all_k, 'nk': all_nk}[kd]
    def know(s, ex, kd, f):
        vs = FV[:len(kd)]; b = f(*vs); q = lambda *xs: substitute(b, *zip(vs, xs))
        ex.S.x['Q' + kd] = ex.S.x.get('Q' + kd, ()) + (q,)
    def knowview(s, ex, k, skip=None):
        A = s.sv(ex, k)
        ex.S.x['ats'] = ex.S.x.get('ats', ()) + (A.at,); ex.S.x['kks'] = ex.S.x.get('kks', ()) + (A.kk,); ex.S.x['nexts'] = ex.S.x.get('nexts', ()) + (A.next,)
        for kd, nm, f in s.F(A, skip): s.know(ex, kd, f)
    def showview(s, ex, k, kind, what, skip=None):
        for kd, nm, f in s.F(s.sv(ex, k), skip): ex.oblige(what + nm, s.q(kd)(f), kind, False)
    def disjoint(s, ex, kind, what):
        vs = s.views(ex)
        for i in vs:
            for j in vs:
                if i < j: ex.oblige(what + 'sets share no node', all_n(lambda n: Not(And(Select(ex.S.ghost['N%d' % i], n), Select(ex.S.ghost['N%d' % j], n)))), kind, False)
    def knowdisjoint(s, ex):
        vs = s.views(ex); g = ex.S.ghost
        for i in vs:
            for j in vs:
                if i < j: s.know(ex, 'n', lambda n, a=g['N%d' % i], b=g['N%d' % j]: Not(And(Select(a, n), Select(b, n))))
    def note(s, ex, p):
        T = ex.S.x.get('TN', ())
        if not is_int_value(p) and not any(p.eq(t) for t in T): ex.S.x['TN'] = T + (p,)
        return p
    def notek(s, ex, k):
        T = ex.S.x.get('TK', ())
        if not any(k.eq(t) for t in T): ex.S.x['TK'] = T + (k,)
        return k
    def prep(s, ex, hyps, goal):
        sn, sk_ = [], []
        def sk(g):
            if is_quantifier(g):
                vs = [fresh('sk_' + g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
                for i, v in enumerate(vs): (sk_ if g.var_name(i) == 'qk' else sn).append(v)
                return sk(substitute_vars(g.body(), *reversed(vs)))
            return g
        goal = sk(goal)
        def uniq(l):
            r, seen = [], set()
            for x in l:
                if x.get_id() not in seen: seen.add(x.get_id()); r.append(x)
            return r
        X = ex.S.x; g = ex.S.ghost; vs = [k for _, k in X.get('trees', ())]
        ats = uniq(list(X.get('ats', ())) + [g['at%d' % k] for k in vs]); kks = uniq(list(X.get('kks', ())) + [g['kk%d' % k] for k in vs]); nxs = uniq(list(X.get('nexts', ())) + [s.field(ex, 'next')])
        out = [h for h in hyps if not has_q(h)]
        QN, QK, QP = list(X.get('Qn', ())), list(X.get('Qk', ())), list(X.get('Qnk', ()))
        for h in hyps:
            if has_q(h):
                if not (is_quantifier(h) and h.is_forall()): raise Unsupported('a nested quantifier')
                nms = [h.var_name(i) for i in range(h.num_vars())]; f = s.hypf.get(h.get_id())
                if f is None:
                    b = h.body(); s.keep.append(h)
                    f = s.hypf[h.get_id()] = (lambda n, k, b=b: substitute_vars(b, k, n)) if len(nms) == 2 else (lambda n, b=b: substitute_vars(b, n))
                (QN if nms == ['qn'] else QK if nms == ['qk'] else QP).append(f)
        memo = s.memo
        def inst(fs, *ts):
            """the conjunction of the facts at these terms"""
            key = tuple(map(id, fs)); key = s.sets_.setdefault(key, len(s.sets_)); ck = (key,) + tuple(t.get_id() for t in ts)
            r = memo.get(ck)
            if r is None:
                l = []
                for f in fs:
                    c = memo.get((id(f),) + ck[1:])
                    if c is None: s.keep.append(f); s.keep.extend(ts); c = memo[(id(f),) + ck[1:]] = f(*ts)
                    l.append(c)
                r = memo[ck] = And(*l) if l else BoolVal(True)
            return r
        TN, TK = list(X.get('TN', ())), list(X.get('TK', ()))
        N1 = uniq(TN + sn); K1 = uniq(TK + sk_ + [Select(m, n) for m in kks for n in N1]); K0 = uniq(TK + sk_)
        N2 = uniq(N1 + [Select(a, k) for a in ats for k in K0] + [Select(m, n) for m in nxs for n in sn])
        o1 = list(out)
        o1 += [inst(QN, n) for n in N2] + [inst(QK, k) for k in K1] + [inst(QP, n, k) for n in N1 for k in K0]
        yield o1, goal
        N3 = uniq(N2 + [Select(m, n) for m in nxs for n in N1] + [Select(a, k) for a in ats for k in K1]); K3 = uniq(K1 + [Select(m, n) for m in kks for n in N3])
        yield o1 + [inst(QN, n) for n in N3[len(N2):]] + [inst(QK, k) for k in K3[len(K1):]] + [inst(QP, n, k) for n in N2 for k in K1], goal
    # ---- memory
    def load_hook(s, ex, p, key, idx, ty):
        if key in s.pfields:
            m = ex.mem(key, I); v = ex.select_simp(m, idx); v = s.note(ex, v if v is not None else Select(m, idx))
            return ex.wrapval(v, ty, key)
    def store_hook(s, ex, p, key, idx, v, ty): return False
    # ---- the operations of the tree, by their contract
    def callee(s, ex, dem, name):
        if dem.startswith('Cmp::operator()'): return s.cmp
        if dem.startswith('Elem::'): return s.elem_callee(ex, dem, name)
        m = re.search(TREE + r'(~?\w+)(<.*>)?\(', dem)
        if m and m.group(1) in s.ops: return s.traced(getattr(s, 'r_' + s.ops[m.group(1)]), dem)
        m = re.search(r'Set<Elem, Cmp, void>::operator(\+=|\*=|-=)\(', dem)
        if m: return lambda ex, args, ins: s.r_setop(ex, args, m.group(1))
        return Spec.callee(s, ex, dem, name)
    ops = {'getMin': 'min', 'getMax': 'max', 'insertUnique': 'insert', 'replace': 'replace', 'removeNode': 'remove', 'findNode': 'find', 'begin': 'find', 'end': 'endk', 'BinaryTree': 'copy', '~BinaryTree': 'dtor', 'empty': 'empty'}
    def traced(s, f, dem): return lambda ex, args, ins: f(ex, args, dem)
    def cmp(s, ex, args, ins):
        for a in args[1:3]: s.notek(ex, RANKE(s.vl(ex, a.addr())))
        return super().cmp(ex, args, ins)
    def P(s, ex, v): return ex.typed(s.note(ex, v), s.unit.structs['Node'])
    def E(s, ex, v): return ex.typed(v, s.unit.fields['Node.data'][0])
    def enter(s, ex, args, skip=None, what='callee: '):
        k = s.viewof(ex, args[0].addr()); s.showview(ex, k, 'precondition', what, skip)
        return k, s.sv(ex, k)
    def thekey(s, ex, a, A):
        s.need(ex, a, 'the search key'); k = s.notek(ex, RANKE(s.vl(ex, a))); s.note(ex, Select(A.at, k)); return k
    def r_find(s, ex, args, dem):
        k, A = s.enter(ex, args); r = s.thekey(ex, args[1].addr(), A)
        return s.P(ex, Select(A.at, r))
    def r_endk(s, ex, args, dem):
        k, A = s.enter(ex, args); q = s.thekey(ex, args[1].addr(), A); r = fresh('end', I); held = Select(A.at, q) != 0
        ex.assume(Implies(r != 0, And(Select(A.N, r), Select(A.kk, r) > q)))
        s.know(ex, 'k', lambda j: Implies(And(Select(A.at, j) != 0, j > q, Or(r != 0, held)), And(r != 0, j >= Select(A.kk, r))))
        return s.P(ex, r)
    def r_min(s, ex, args, dem): return s.ext(ex, args, True)
    def r_max(s, ex, args, dem): return s.ext(ex, args, False)
    def ext(s, ex, args, lo):
        k, A = s.enter(ex, args); r = fresh('first' if lo else 'last', I)
        ex.assume(Implies(r != 0, Select(A.N, r)))
        s.know(ex, 'k', lambda j: Implies(Select(A.at, j) != 0, And(r != 0, (j >= Select(A.kk, r)) if lo else (j <= Select(A.kk, r)))))
        return s.P(ex, r)
    def elems(s, ex): return [ex.args[i].addr() for i in s.keys + s.outs]
    def changed(s, ex, k, A, but, num):
        """after an operation on view k: other nodes keep their successor; elements keep their value but those at `but`"""
        a = [t for t, j in ex.S.x['trees'] if j == k][0]
        ex.havoc_region(s.unit.fields['Node.next']); nx = s.field(ex, 'next'); B = s.sv(ex, k)
        s.know(ex, 'n', lambda n: Implies(And(Not(Select(A.N, n)), Not(Select(B.N, n))), Select(nx, n) == Select(A.next, n)))
        v = fresh('val', AI); ex.setg('val', v)
        keep = lambda e: Implies(And(Select(A.live, e), *[e != x for x in but]), Select(v, e) == Select(A.val, e))
        s.know(ex, 'n', lambda n: keep(n + s.doff))
        for e in s.elems(ex): ex.assume(keep(e))
        for fld, val in (('root', fresh('root', I)), ('num', num)):
            kf = s.unit.fields['Tree.' + fld]; d = s.unit.delta.get('Tree.' + fld, 0); m = ex.mem(kf, I)
            ex.S.mem[kf] = Store(m, a if d == 0 else a + d, val(Select(m, a if d == 0 else a + d)) if callable(val) else val); ex.S.written.add(kf)
        s.settled(ex, k)
    def settled(s, ex, k):
        # the changed set by its contract, the others because none of their nodes is touched
        for j in s.views(ex):
            if j != k: s.showview(ex, j, 'lemma', 'other set: ')
        for j in s.views(ex): s.knowview(ex, j)
        s.knowdisjoint(ex)
    def r_replace(s, ex, args, dem): return s.r_insert(ex, args, dem, True)
    def r_insert(s, ex, args, dem, repl=False):
        rv = '&&)' in dem; a = args[1].addr(); k, A = s.enter(ex, args); s.need(ex, a, 'the inserted element')
        kv = s.vl(ex, a); r = s.notek(ex, RANKE(kv)); s.note(ex, Select(A.at, r)); had = Select(A.at, r) != 0
        if rv: ex.oblige('callee: the inserted element is not in the set', all_n(lambda n: Implies(Select(A.N, n), n + s.doff != a)), 'precondition', False)
        x, y = fresh('new', I), fresh('ins', I)
        ex.assume(And(x > 0, Not(Select(A.alive, x)), Not(Select(A.live, x + s.doff)))); s.note(ex, x); s.note(ex, y)
        for e in s.elems(ex): ex.assume(x + s.doff != e)
        ex.assume(y == If(had, Select(A.at, r), x))
        for j in s.views(ex): s.note(ex, Select(ex.S.ghost['at%d' % j], r))
        s.setsv(ex, k, at=Store(A.at, r, y), kk=Store(A.kk, y, r), N=Store(A.N, y, BoolVal(True)))
        ex.setg('alive', Store(A.alive, y, BoolVal(True))); ex.setg('live', Store(A.live, y + s.doff, BoolVal(True)))
        s.changed(ex, k, A, [a] * rv + [y + s.doff] * repl, lambda c: c + If(had, 0, 1))
        v = ex.S.ghost['val']; ex.assume(Select(v, y + s.doff) == (kv if repl else If(had, Select(A.val, y + s.doff), kv)))
        return s.E(ex, y + s.doff)
    def r_remove(s, ex, args, dem):
        n = s.note(ex, args[1].addr()); k, A = s.enter(ex, args, n)
        ex.oblige('callee: the removed node belongs to the set', Select(A.N, n), 'precondition')
        two = fresh('two', BoolSort()); u, w = fresh('evicted', I), fresh('following', I)
        nx = s.note(ex, Select(A.next, n)); ex.assume(And(Implies(two, nx != 0), u == If(two, nx, n), w == If(two, n, nx))); s.note(ex, u); s.note(ex, w)
        kn, ku = s.notek(ex, Select(A.kk, n)), s.notek(ex, Select(A.kk, u))
        s.setsv(ex, k, at=Store(Store(A.at, ku, n), kn, IntVal(0)), kk=Store(A.kk, n, ku), N=Store(A.N, u, BoolVal(False)))
        ex.setg('alive', Store(A.alive, u, BoolVal(False))); ex.setg('live', Store(A.live, u + s.doff, BoolVal(False)))
        s.changed(ex, k, A, [n + s.doff, u + s.doff], lambda c: c - 1)
        v = ex.S.ghost['val']; ex.assume(Implies(two, Select(v, n + s.doff) == Select(A.val, u + s.doff)))
        return s.P(ex, w)
    def cleared(s, ex, k, A):
        al, lv = fresh('alive', AB), fresh('live', AB); N = A.N
        s.know(ex, 'n', lambda n: And(Select(al, n) == And(Select(A.alive, n), Not(Select(N, n))), Select(lv, n + s.doff) == And(Select(A.live, n + s.doff), Not(Select(N, n)))))
        ex.setg('alive', al); ex.setg('live', lv)
        for e in s.elems(ex): ex.assume(Select(lv, e) == Select(A.live, e))
    def r_empty(s, ex, args, dem):
        k, A = s.enter(ex, args); s.cleared(ex, k, A)
        s.setsv(ex, k, at=K(I, IntVal(0)), N=K(I, BoolVal(False)))
        s.changed(ex, k, A, [], lambda c: IntVal(0)); return None
    def r_dtor(s, ex, args, dem):
        k, A = s.enter(ex, args); s.cleared(ex, k, A)
        ex.S.x['trees'] = tuple((None if j == k else a, j) for a, j in ex.S.x['trees'])
        s.settled(ex, k); ex.S.log.append(('dtor', k)); return None
    def r_copy(s, ex, args, dem):
        if args[1].addr().eq(args[0].addr()): raise Unsupported('a copy of itself')
        j = s.viewof(ex, args[1].addr()); s.showview(ex, j, 'precondition', 'callee: '); A = s.sv(ex, j); t = args[0].addr()
        if '&&' in dem: raise Unsupported('moving a set')
        k = s.newview(ex, t)
        N, at, kk, cp = fresh('N', AB), fresh('at', AI), fresh('kk', AI), fresh('cp', AI)
        s.setsv(ex, k, N=N, at=at, kk=kk)
        al, lv, v = fresh('alive', AB), fresh('live', AB), fresh('val', AI)
        s.know(ex, 'n', lambda n: And(Select(al, n) == Or(Select(A.alive, n), Select(N, n)), Implies(Select(N, n), Not(Select(A.alive, n))), Select(lv, n + s.doff) == Or(Select(A.live, n + s.doff), Select(N, n)),
                                  Implies(Select(A.live, n + s.doff), Select(v, n + s.doff) == Select(A.val, n + s.doff))))
        for e in s.elems(ex): ex.assume(And(Select(lv, e) == Select(A.live, e), Implies(Select(A.live, e), Select(v, e) == Select(A.val, e))))
        s.know(ex, 'k', lambda q: And((Select(at, q) != 0) == (Select(A.at, q) != 0), Implies(Select(at, q) != 0, Select(v, Select(at, q) + s.doff) == Select(A.val, Select(A.at, q) + s.doff))))
        ex.setg('alive', al); ex.setg('live', lv); ex.setg('val', v)
        ex.havoc_region(s.unit.fields['Node.next']); nx = s.field(ex, 'next')
        s.know(ex, 'n', lambda n: Implies(Not(Select(N, n)), Select(nx, n) == Select(A.next, n)))
        for fld in ('root', 'num', 'malloc'):
            kf = s.unit.fields['Tree.' + fld]; d = s.unit.delta.get('Tree.' + fld, 0); m = ex.mem(kf, I); o = args[1].addr()
            ex.S.mem[kf] = Store(m, t + d if d else t, Select(m, o + d if d else o) if fld == 'num' else fresh(fld, I)); ex.S.written.add(kf)
        s.settled(ex, k); return None
    # ---- the assigning set operations, as callees
    def related(s, op, A, B0, B):
        """A: the set before, B0: the other set, B: the set after"""
        a, b, c = (lambda k: Select(A.at, k) != 0), (lambda k: Select(B0.at, k) != 0), (lambda k: Select(B.at, k) != 0)
        val = lambda X, k: Select(X.val, Select(X.at, k) + s.doff)
        want = {'+=': lambda k: Or(a(k), b(k)), '*=': lambda k: And(a(k), b(k)), '-=': lambda k: And(a(k), Not(b(k)))}[op]
        yield {'+=': 'the set holds exactly the keys of the union', '*=': 'the set holds exactly the keys of the intersection', '-=': 'the set holds exactly the keys of the difference'}[op], lambda k: c(k) == want(k)
        yield 'elements that remain keep their value, added ones are copies', lambda k: Implies(c(k), val(B, k) == If(a(k), val(A, k), val(B0, k)))
    def owned(s, A, B, dt):
        yield 'other blocks and elements are neither freed nor leaked', lambda n: And(Select(B.alive, n) == Or(Select(B.N, n), And(Select(A.alive, n), Not(Select(A.N, n)))), Select(B.live, n + s.doff) == Or(Select(B.N, n), And(Select(A.live, n + s.doff), Not(Select(A.N, n)))))
        yield 'other elements keep their value', lambda n: Implies(And(Not(Select(A.N, n)), Not(Select(B.N, n)), Select(A.live, n + s.doff)), Select(B.val, n + s.doff) == Select(A.val, n + s.doff))
        yield 'new nodes are fresh', lambda n: Implies(And(Select(B.N, n), Not(Select(A.N, n))), Not(Select(A.alive, n)))
    def r_setop(s, ex, args, op):
        k, A = s.enter(ex, args); j = s.viewof(ex, args[1].addr()); s.showview(ex, j, 'precondition', 'callee: ')
        if j == k: raise Unsupported('a set combined with itself')
        C = s.sv(ex, j)
        for n, so in (('N', AB), ('at', AI), ('kk', AI)): ex.setg('%s%d' % (n, k), fresh(n, so))
        ex.setg('alive', fresh('alive', AB)); ex.setg('live', fresh('live', AB))
        s.note0 = None
        old = s.sv(ex, k)
        # (val and next are renewed by changed)
        ex.havoc_region(s.unit.fields['Node.next']); ex.setg('val', fresh('val', AI)); B = s.sv(ex, k)
        s.know(ex, 'n', lambda n: Implies(And(Not(Select(A.N, n)), Not(Select(B.N, n))), Select(B.next, n) == Select(A.next, n)))
        for nm, f in s.related(op, A, C, B): s.know(ex, 'k', f)
        for nm, f in s.owned(A, B, None): s.know(ex, 'n', f)
        for e in s.elems(ex): ex.assume(And(Select(B.live, e) == Select(A.live, e), Select(B.val, e) == Select(A.val, e)))
        a = args[0].addr()
        for fld in ('root', 'num'):
            kf = s.unit.fields['Tree.' + fld]; d = s.unit.delta.get('Tree.' + fld, 0); m = ex.mem(kf, I)
            ex.S.mem[kf] = Store(m, a + d if d else a, fresh(fld, I)); ex.S.written.add(kf)
        s.settled(ex, k)
        return args[0]
    # ---- setup
    def setup(s, ex):
        s.fieldmaps(); s.heap(ex); s.life(ex); s.objects = []; s.t = []
        ex.assume(Not(s.lv(ex, IntVal(0))))
        if s.alias: ex.args[s.sets[1]] = ex.args[s.sets[0]]; ex.S.regs[ex.f.params[s.sets[1]][1]] = ex.args[s.sets[0]]
        for i in s.sets:
            if s.alias and i != s.sets[0]: continue
            a = s.argp(ex, i, 'Set'); s.t.append(a); s.objects.append(a)
            if s.raw and i == s.sets[0]: ex.S.x['trees'] = ex.S.x.get('trees', ()) ; continue
            k = s.newview(ex, a)
            for n, so in (('N', AB), ('at', AI), ('kk', AI)): ex.setg('%s%d' % (n, k), Const('%s%d_0' % (n, k), so))
        if len(s.t) > 1:
            for i, a in enumerate(s.t):
                for b in s.t[:i]: ex.assume(a != b)
        for i in s.keys + s.outs:
            e = ex.args[i].addr(); ex.assume(And(e > 0, s.lv(ex, e)))
            ex.assume(Or(*[e == 0]) if False else BoolVal(True))
        for i in s.outs:
            e = ex.args[i].addr()
            for k in s.views(ex): s.know(ex, 'n', lambda n, N=ex.S.ghost['N%d' % k]: Implies(Select(N, n), n + s.doff != e))
            for j in s.keys: ex.assume(ex.args[j].addr() != e)
        for k in s.views(ex): s.knowview(ex, k)
        s.knowdisjoint(ex)
        s.A = [s.sv(ex, k) for k in s.views(ex)]; s.B0 = s.A[-1] if s.A else None
        for i in s.keys: s.kr(ex, i)
        s.pre(ex)
    def kr(s, ex, i):
        k = s.notek(ex, RANKE(Select(ex.S0.ghost['val'] if hasattr(ex, 'S0') else ex.S.ghost['val'], ex.args[i].addr())))
        for A in s.A: s.note(ex, Select(A.at, k))
        return k
    def key0(s, ex, i): return RANKE(Select(ex.S0.ghost['val'], ex.args[i].addr()))
    def held(s, A, k): return Select(A.at, k) != 0
    def nothing(s, ex):
        bad = s.field(ex, 'next') is not s.field(ex, 'next', ex.S0) or any(ex.S.ghost[n] is not ex.S0.ghost[n] for n in ('val', 'live', 'alive'))
        s.ens(ex, 'nothing is written', BoolVal(not bad and not [e for e in ex.S.log if e[0] in ('alloc', 'free', 'dtor')]))
    def ok(s, ex, but=None):
        """the sets are sets at exit; the operands that are not assigned are unchanged"""
        for k in s.views(ex):
            s.showview(ex, k, 'postcondition', 'the set: ' if k == 0 else 'the other set: ')
            if k != but:
                A, B = s.sv(ex, k, ex.S0) if k < len(s.A) else None, s.sv(ex, k)
                if A is None: continue
                s.ens(ex, 'the other set keeps its elements', And(A.at == B.at, A.N == B.N, A.kk == B.kk))
                ex.oblige('elements of the other set keep their value', all_n(lambda n: Implies(Select(A.N, n), Select(B.val, n + s.doff) == Select(A.val, n + s.doff))), 'postcondition', False)
        s.disjoint(ex, 'postcondition', '')
    # ---- loops
    def havoc_hook(s, ex, L):
        for i in ex.phi_list(L.h):
            v = ex.S.regs[i.res]
            if isinstance(v, Ptr): s.note(ex, v.addr())
        X = ex.S.x; vs = s.views(ex)
        for k in vs:
            A = s.sv(ex, k); X['ats'] = X.get('ats', ()) + (A.at,); X['kks'] = X.get('kks', ()) + (A.kk,); X['nexts'] = X.get('nexts', ()) + (A.next,)
    def inv(s, ex, L):
        vs = s.views(ex); cur = {k: s.sv(ex, k) for k in vs}; old = {k: s.sv(ex, k, ex.S0) for k in vs if 'N%d' % k in ex.S0.ghost}
        chg = {k for k in old if not (cur[k].at is old[k].at)}
        touched = any(ex.S.ghost[n] is not ex.S0.ghost[n] for n in ('val', 'live', 'alive'))
        if touched or chg:
            for k in vs:
                for kd, nm, f in s.F(cur[k]): yield 'set %d: %s' % (k, nm), s.q(kd)(f)
                for j in vs:
                    if k < j: yield 'sets %d and %d share no node' % (k, j), all_n(lambda n: Not(And(Select(cur[k].N, n), Select(cur[j].N, n))))
                if k in old and k not in chg:
                    yield 'elements of set %d keep their value' % k, all_n(lambda n: Implies(Select(old[k].N, n), Select(cur[k].val, n + s.doff) == Select(old[k].val, n + s.doff)))
            for e in s.elems(ex): yield 'an element outside keeps its value', And(Select(ex.S.ghost['live'], e), Select(ex.S.ghost['val'], e) == Select(ex.S0.ghost['val'], e))
        for k in chg:
            A, B = old[k], cur[k]
            for nm, f in s.owned(A, B, None): yield 'set %d: %s' % (k, nm), all_n(f)
            yield 'next of other nodes, %d' % k, all_n(lambda n: Implies(And(Not(Select(A.N, n)), Not(Select(B.N, n))), Select(B.next, n) == Select(A.next, n)))
            yield 'no node is new, %d' % k, all_n(lambda n: Implies(Select(B.N, n), Select(A.N, n)))
            a, c = (lambda q: Select(A.at, q) != 0), (lambda q: Select(B.at, q) != 0)
            val = lambda X, q: Select(X.val, Select(X.at, q) + s.doff)
            yield 'nothing is added, %d' % k, all_k(lambda q: Implies(c(q), a(q)))
            yield 'nothing is removed, %d' % k, all_k(lambda q: Implies(a(q), c(q)))
            yield 'remaining elements keep their value, %d' % k, all_k(lambda q: Implies(And(a(q), c(q)), val(A, q) == val(B, q)))
            for j in vs:
                if j == k or j not in old: continue
                C = old[j]; b = lambda q: Select(C.at, q) != 0
                yield 'added elements come from set %d' % j, all_k(lambda q: Implies(And(c(q), Not(a(q))), And(b(q), val(B, q) == val(C, q))))
                yield 'common elements stay, %d %d' % (k, j), all_k(lambda q: Implies(And(a(q), b(q)), c(q)))
                yield 'elements not common stay, %d %d' % (k, j), all_k(lambda q: Implies(And(a(q), Not(b(q))), c(q)))
        bef = lambda k, p: lambda q: Or(p == 0, q < Select(cur[k].kk, p))
        has = lambda X: lambda q: Select(X.at, q) != 0
        for r, v in L.pphis:
            p = v.addr()
            yield '%s is null' % r, p == 0
            for a in vs:
                A = cur[a]; h = has(A)
                yield '%s is null or in set %d' % (r, a), Or(p == 0, Select(A.N, p))
                yield '%s is in set %d' % (r, a), Select(A.N, p)
                for b in vs:
                    if a != b: yield 'all of set %d is before %s in %d' % (b, r, a), all_k(lambda q: Implies(has(cur[b])(q), bef(a, p)(q)))
                if a in chg:
                    yield 'set %d is unchanged from %s on' % (a, r), all_k(lambda q: Implies(Not(bef(a, p)(q)), h(q) == has(old[a])(q)))
                for b in vs:
                    if a == b: continue
                    hb = has(cur[b])
                    yield 'before %s, set %d has no element of %d' % (r, a, b), all_k(lambda q: Implies(And(bef(a, p)(q), h(q)), Not(hb(q))))
                    yield 'before %s, set %d has only elements of %d' % (r, a, b), all_k(lambda q: Implies(And(bef(a, p)(q), h(q)), hb(q)))
                    if b in chg: yield 'elements of %d before %s are in %d only if removed' % (a, r, b), all_k(lambda q: Implies(And(bef(a, p)(q), h(q)), Not(hb(q))))
                    if a in chg:
                        yield 'before %s, set %d keeps exactly the elements of %d' % (r, a, b), all_k(lambda q: Implies(And(bef(a, p)(q), has(old[a])(q)), h(q) == hb(q)))
                        yield 'before %s, set %d keeps exactly the elements not of %d' % (r, a, b), all_k(lambda q: Implies(And(bef(a, p)(q), has(old[a])(q)), h(q) == Not(hb(q))))
                        yield 'added elements are those of %d before' % b, all_k(lambda q: Implies(And(h(q), Not(has(old[a])(q))), hb(q)))
            for a in vs:
                if a in chg:
                    for b in vs:
                        if b != a: yield 'elements added to %d are before %s' % (a, r), all_k(lambda q: Implies(And(has(cur[a])(q), Not(has(old[a])(q))), And(has(cur[b])(q), bef(b, p)(q))))
            for r2, v2 in L.pphis:
                if r2 == r: continue
                p2 = v2.addr()
                yield '%s is %s' % (r, r2), p == p2
                for a in vs:
                    for b in vs:
                        if a == b: continue
                        hb = has(cur[b])
                        yield 'elements of %d before %s are before %s in %d' % (b, r2, r, a), all_k(lambda q: Implies(And(hb(q), bef(b, p2)(q)), bef(a, p)(q)))
                        yield 'elements of old %d before %s are before %s in %d' % (b, r2, r, a), all_k(lambda q: Implies(And(has(old[b])(q) if b in old else BoolVal(False), bef(b, p2)(q)), bef(a, p)(q)))
        for r, v, n in L.iphis:
            t = v if is_bool(v) else v != 0
            if not is_bool(v): yield '%s is a truth value' % r, Or(v == 0, v == 1)
            yield '%s is set' % r, t
            yield '%s is not set' % r, Not(t)
            for nm, f in s.flags(ex, L, cur, bef, has): yield nm % r, f(t)
    def flags(s, ex, L, cur, bef, has): return ()

class GetSize(RS):
    def post(s, ex, ret): s.nothing(ex); s.ens(ex, 'returns the number of elements', ret == s.rd(ex, 'Tree.num', s.t[0]))
class TreeRef(RS):
    def post(s, ex, ret): s.nothing(ex); s.ens(ex, 'refers to the tree of the set', ret.addr() == s.t[0] + s.unit.delta['Set.tree'])
class End(RS):
    def post(s, ex, ret): s.nothing(ex); s.ens(ex, 'the end is past every element', ret.addr() == 0)
class BeginK(RS):
    keys = (1,)
    def post(s, ex, ret): s.nothing(ex); s.ens(ex, 'the element with the key, or the end', ret.addr() == Select(s.A[0].at, s.key0(ex, 1)))
class EndK(RS):
    keys = (1,)
    def post(s, ex, ret):
        A = s.A[0]; q = s.key0(ex, 1); r = s.note(ex, ret.addr()); s.nothing(ex)
        s.ens(ex, 'an element with a larger key, or the end', Implies(r != 0, And(Select(A.N, r), Select(A.kk, r) > q)))
        ex.oblige('the next element after the one with the key', all_k(lambda j: Implies(And(s.held(A, q), s.held(A, j), j > q), And(r != 0, j >= Select(A.kk, r)))), 'postcondition', False)
class Has(RS):
    keys = (1,); want = 'any'
    def post(s, ex, ret):
        A = s.A[0]; s.nothing(ex); h = [s.held(A, s.key0(ex, i)) for i in s.keys]
        s.ens(ex, 'true exactly when %s of the keys are in the set' % s.want, ret == (Or(*h) if s.want == 'any' else And(*h)))
class GetV(RS):
    keys = (1,); outs = (2,)
    def post(s, ex, ret):
        A = s.A[0]; q = s.key0(ex, 1); o = ex.args[2].addr(); g, g0 = ex.S.ghost, ex.S0.ghost
        s.ens(ex, 'true exactly when the key is in the set', ret == s.held(A, q))
        s.ens(ex, 'the output is the element of the set with the key', Select(g['val'], o) == If(s.held(A, q), Select(A.val, Select(A.at, q) + s.doff), Select(g0['val'], o)))
        s.ens(ex, 'nothing is created or destroyed', BoolVal(g['live'] is g0['live'] and g['alive'] is g0['alive']))
        s.ok(ex)
class SetItem(RS):
    keys = (1,); rv = False
    def pre(s, ex):
        if s.rv:
            for A in s.A: s.know(ex, 'n', lambda n, A=A: Implies(Select(A.N, n), n + s.doff != ex.args[1].addr()))
            for i, k in enumerate(s.keys):
                for j in s.keys[:i]: ex.assume(ex.args[k].addr() != ex.args[j].addr())
    def post(s, ex, ret):
        A, B = s.A[0], s.sv(ex, 0); ks = [s.key0(ex, i) for i in s.keys]; vs = [Select(A.val, ex.args[i].addr()) for i in s.keys]
        ex.oblige('the set holds exactly its keys and the added ones', all_k(lambda q: s.held(B, q) == Or(s.held(A, q), *[q == k for k in ks])), 'postcondition', False)
        ex.oblige('the elements of the set keep their value', all_k(lambda q: Implies(s.held(A, q), Select(B.val, Select(B.at, q) + s.doff) == Select(A.val, Select(A.at, q) + s.doff))), 'postcondition', False)
        w = vs[-1]
        for k, v in reversed(list(zip(ks, vs))[:-1]): w = If(k == ks[-1], v, w) if len(ks) == 2 else w
        for i, (k, v) in enumerate(zip(ks, vs)):
            first = And(Not(s.held(A, k)), *[k != k2 for k2 in ks[:i]])
            s.ens(ex, 'an added element has the given value', Implies(first, Select(B.val, Select(B.at, k) + s.doff) == v))
        if isinstance(ret, Ptr): s.ens(ex, 'refers to the element with the key', ret.addr() == Select(B.at, ks[0]) + s.doff)
        for nm, f in s.owned(A, B, None): 
            if not s.rv or 'keep' not in nm: ex.oblige(nm, all_n(f), 'postcondition', False)
        s.num(ex, ks); s.ok(ex, 0)
    def num(s, ex, ks):
        A = s.A[0]; c = s.rd(ex, 'Tree.num', s.t[0]); c0 = s.rd(ex, 'Tree.num', s.t[0], ex.S0)
        for i, k in enumerate(ks): c0 = c0 + If(And(Not(s.held(A, k)), *[k != j for j in ks[:i]]), 1, 0)
        s.ens(ex, 'the size counts the elements', c == c0)
class RemoveItem(RS):
    keys = (1,)
    def post(s, ex, ret):
        A, B = s.A[0], s.sv(ex, 0); k = s.key0(ex, 1); h = s.held(A, k); g, g0 = ex.S.ghost, ex.S0.ghost
        s.ens(ex, 'true exactly when the key was in the set', ret == h)
        ex.oblige('the set holds exactly the other keys', all_k(lambda q: s.held(B, q) == And(s.held(A, q), q != k)), 'postcondition', False)
        ex.oblige('the other elements keep their value', all_k(lambda q: Implies(s.held(B, q), Select(B.val, Select(B.at, q) + s.doff) == Select(A.val, Select(A.at, q) + s.doff))), 'postcondition', False)
        s.ens(ex, 'the size counts the elements', s.rd(ex, 'Tree.num', s.t[0]) == s.rd(ex, 'Tree.num', s.t[0], ex.S0) - If(h, 1, 0))
        for i in s.outs:
            o = ex.args[i].addr(); s.ens(ex, 'the output is the removed element', Select(g['val'], o) == If(h, Select(A.val, Select(A.at, k) + s.doff), Select(g0['val'], o)))
        for nm, f in s.owned(A, B, None):
            if not s.outs or 'keep' not in nm: ex.oblige(nm, all_n(f), 'postcondition', False)
        s.ok(ex, 0)
class SetOp(RS):
    sets = (0, 1); op = '+='
    def pre(s, ex):
        s.C = s.A[-1]
    def post(s, ex, ret):
        A, C, B = s.A[0], s.C, s.sv(ex, 0)
        s.ens(ex, 'returns the set', ret.addr() == s.t[0])
        for nm, f in s.related(s.op, A, C, B): ex.oblige(nm, all_k(f), 'postcondition', False)
        for nm, f in s.owned(A, B, None): ex.oblige(nm, all_n(f), 'postcondition', False)
        ex.oblige('successors of other nodes are unchanged', all_n(lambda n: Implies(And(Not(Select(A.N, n)), Not(Select(B.N, n))), Select(B.next, n) == Select(A.next, n))), 'postcondition', False)
        s.ok(ex, 0)
class SetOpW(RS):
    """the wrapper: the operator by its contract"""
    sets = (0, 1); op = '+='
    def post(s, ex, ret):
        A, C, B = s.A[0], s.A[1], s.sv(ex, 0)
        s.ens(ex, 'returns the set', ret.addr() == s.t[0])
        for nm, f in s.related(s.op, A, C, B): ex.oblige(nm, all_k(f), 'postcondition', False)
class SetBin(RS):
    sets = (0, 1, 2); op = '+='; raw = True
    def post(s, ex, ret):
        A, C = s.A; k = s.viewof(ex, s.t[0]); B = s.sv(ex, k)
        for nm, f in s.related(s.op, A, C, B): ex.oblige(nm, all_k(f), 'postcondition', False)
        s.ens(ex, 'every temporary set is destroyed', BoolVal(len(s.views(ex)) == 3))
        ex.oblige('every block is one there was or a node of the result', all_n(lambda n: Select(B.alive, n) == Or(Select(A.alive, n), Select(B.N, n))), 'postcondition', False)
        ex.oblige('new nodes are fresh', all_n(lambda n: Implies(Select(B.N, n), Not(Select(A.alive, n)))), 'postcondition', False)
        s.ok(ex, k)
class Copy(RS):
    sets = (0, 1); raw = True
    def post(s, ex, ret):
        A = s.A[0]; k = s.viewof(ex, s.t[0]); B = s.sv(ex, k)
        ex.oblige('the copy holds the same elements', all_k(lambda q: And(s.held(B, q) == s.held(A, q), Implies(s.held(B, q), Select(B.val, Select(B.at, q) + s.doff) == Select(A.val, Select(A.at, q) + s.doff)))), 'postcondition', False)
        s.ok(ex, k)
class Dtor(RS):
    def post(s, ex, ret):
        A = s.A[0]; g = ex.S.ghost
        s.ens(ex, 'the set is destroyed', BoolVal(not s.views(ex)))
        ex.oblige('exactly the nodes are freed and their elements destroyed', all_n(lambda n: And(Select(g['alive'], n) == And(Select(A.alive, n), Not(Select(A.N, n))), Select(g['live'], n + s.doff) == And(Select(A.live, n + s.doff), Not(Select(A.N, n))))), 'postcondition', False)
class Compare(RS):
    sets = (0, 1); op = '=='
    def pre(s, ex):
        A, C = s.A[0], s.A[-1]
        def sub(n, X, Y):
            b = fresh('subset_' + n, BoolSort()); w = s.notek(ex, fresh('witness_' + n, I))
            s.know(ex, 'k', lambda k: Implies(And(b, s.held(X, k)), s.held(Y, k)))
            ex.assume(Implies(Not(b), And(s.held(X, w), Not(s.held(Y, w)))))
            return b
        s.ab = sub('ab', A, C); s.ba = sub('ba', C, A)
    def post(s, ex, ret):
        s.nothing(ex); a, b = s.ab, s.ba
        want = {'==': And(a, b), '!=': Not(And(a, b)), '<=': a, '>=': b, '<': And(a, Not(b)), '>': And(b, Not(a))}[s.op]
        s.ens(ex, {'==': 'true exactly when the sets are equal', '!=': 'true exactly when the sets differ', '<=': 'true exactly when the set is contained in the other', '>=': 'true exactly when the set contains the other', '<': 'true exactly when the set is strictly contained in the other', '>': 'true exactly when the set strictly contains the other'}[s.op], ret == want)
    def flags(s, ex, L, cur, bef, has):
        for nm, b in (('ab', s.ab), ('ba', s.ba)):
            yield '%%s tells that no difference was found, %s' % nm, lambda t, b=b: Implies(Not(t), Not(b))
            yield '%%s tells that a difference was found, %s' % nm, lambda t, b=b: Implies(t, Not(b))
        for r, v in L.pphis:
            p = v.addr()
            for a in cur:
                for b in cur:
                    if a != b:
                        yield '%%s: all of set %d before %s is in %d' % (a, r, b), lambda t, a=a, b=b, p=p: all_k(lambda q: Implies(And(t, bef(a, p)(q), has(cur[a])(q)), has(cur[b])(q)))
                        yield 'not %%s: all of set %d before %s is in %d' % (a, r, b), lambda t, a=a, b=b, p=p: all_k(lambda q: Implies(And(Not(t), bef(a, p)(q), has(cur[a])(q)), has(cur[b])(q)))

def contracts(u):
    u.setptr(PTRS); C = {}
    def add(key, fn, c, **k):
        x = c(key, u); x.fname = fn
        for a, v in k.items(): setattr(x, a, v)
        C[key] = x
    for n in u.mod.funcs:
        d = u.dem(n); m = re.search(TREE + r'(~?\w+)(<.*>)?\((.*)\)', d)
        if m:
            f = m.group(1)
            if f in ('getMin', 'getMax'): add(n, n, RExt, istree=(0,), side='left' if f == 'getMin' else 'right')
            elif f == 'findNode': add(n, n, RFind)
            elif f == 'begin' and '<' in (m.group(2) or ''): add(n, n, RBegin)
            elif f == 'end' and '<' in (m.group(2) or ''): add(n, n, REndK)
            elif f == 'insertUnique': add(n, n, RInsert, rv='&&' in m.group(3), cost=3)
            elif f == 'replace': add(n, n, RInsert, rv='&&' in m.group(3), repl=True, cost=3)
            elif f == 'removeNode': add(n, n, RRemove, cost=3)
            elif f == 'empty': add(n, n, RWhole, mode='empty', raw=False, istree=(0,))
            elif f == '~BinaryTree': add(n, n, RWhole, mode='dtor', raw=False, istree=(0,))
            elif f == 'BinaryTree' and 'const&' in m.group(3): add(n, n, RWhole, mode='copy', raw=True, istree=(0, 1), cost=4)
        m = re.search(r'Set<Elem, Cmp, void>::operator(\+=|\*=|-=)\(', d)
        if m: add(n, n, SetOp, op=m.group(1), cost=5); add(n + "'", n, SetOp, op=m.group(1), alias=True, cost=5)
    def W(n, c, **k):
        if u.fn(n) is not None: add(n, n, c, **k)
    W('set_ctor', TCtor, istree=(0,))
    for n in ('set_getSize', 'set_getCount', 'set_getNumItems'): W(n, GetSize)
    for n in ('set_tree', 'set_ctree'): W(n, TreeRef)
    for n in ('set_cbegin', 'set_begin'): W(n, RExt, istree=(0,))
    for n in ('set_cend', 'set_end'): W(n, End)
    for n in ('set_cbeginK', 'set_beginK'): W(n, BeginK)
    for n in ('set_cendK', 'set_endK'): W(n, EndK)
    W('set_get', Has); W('set_any1', Has); W('set_any3', Has, keys=(1, 2, 3)); W('set_all1', Has, want='all'); W('set_all3', Has, want='all', keys=(1, 2, 3))
    W('set_getV', GetV); W('set_cgetV', GetV)
    W('set_set', SetItem); W('set_set_rv', SetItem, rv=True); W('set_set2', SetItem, keys=(1, 2))
    W('set_remove', RemoveItem); W('set_removeV', RemoveItem, outs=(2,))
    for n, op in (('add', '+='), ('mul', '*='), ('sub', '-=')): W('set_%sEq' % n, SetOpW, op=op); W('set_' + n, SetBin, op=op, cost=3)
    W('set_copy', Copy); W('set_dtor', Dtor)
    for n, op in (('eq', '=='), ('ne', '!='), ('le', '<='), ('ge', '>='), ('lt', '<'), ('gt', '>')):
        W('set_' + n, Compare, op=op, cost=2)
        if u.fn('set_' + n) is not None: add('set_' + n + "'", 'set_' + n, Compare, op=op, alias=True)
    return C
