"""Contracts for containers/map.h (maps over a threaded red-black tree of pairs), over opaque keys and values and an opaque comparison.

The pair behind a node is the element of the tree: its constructors, assignment, destructor and the comparison FindPair have
contracts of their own (PairOp, PairCmp), verified here part by part; everywhere else a pair is one element whose ghost value is a code
with parts PF (the key) and PS (the value) and the rank of its key.  With that, the contracts of tree.py (nodes), treelife.py
(release) and set.py (tree operations in terms of keys; the layer RS over them) apply to the instance Map<Key, Val, KCmp> as they are.
A map is N, at, kk as in set.py; the value of key k is PS of the element of the node at[k]."""
import importlib.util, os, sys
from tree import *
import tree, treelife
def _load(n):
    if n in sys.modules: return sys.modules[n]
    sp = importlib.util.spec_from_file_location(n, os.path.join(os.path.dirname(os.path.abspath(__file__)), n + '.py')); m = importlib.util.module_from_spec(sp); sys.modules[n] = m; sp.loader.exec_module(m); return m
ST = _load('set'); RS, RK = ST.RS, ST.RK
UNIT = 'map.cpp'
PAIR = r'Pair<Key, Val, KCmp>'; NODE_ = r'BinaryNode<%s, %s::FindPair>::' % (PAIR, PAIR); TREE_ = r'BinaryTree<%s, %s::FindPair, void>::' % (PAIR, PAIR)
KEEP = (NODE_ + r'(getRoot|getMin|getMax|getTreeSize|insert|insertUnique|repairInserted|repairRemoved)\(', NODE_ + 'find<', NODE_ + r'remove\(', TREE_ + r'(destroySubtree|cloneSubtree)\(',
        TREE_ + r'(getMin|getMax|removeNode|empty|~BinaryTree)\(', TREE_ + r'(findNode|begin|end|replace)<', '^' + PAIR + r'::(~?Pair|operator=)[<(]', '^' + PAIR + r'& ' + PAIR + r'::operator=', PAIR + r'::FindPair::operator\(\)')
PF, PS = Function('PF', I, I), Function('PS', I, I)
def plain(d):
    """the name as tree.py, treelife.py and set.py know it: the element is the pair"""
    for a, b in ((PAIR + '::FindPair', 'Cmp'), (PAIR, 'Elem'), ('Elem::Pair', 'Elem::Elem'), ('Elem::~Pair', 'Elem::~Elem'), ('<Key>', '<Elem>')): d = d.replace(a, b)
    return d

class Parts:
    """values (class Val) have ghosts of their own; a pair is made of a key and a value"""
    vals = (); vouts = ()
    def vlife(s, ex):
        ex.setg('vlive', Const('vlive0', AB)); ex.setg('vval', Const('vval0', AI))
        for i in s.vals + s.vouts: a = ex.args[i].addr(); ex.assume(And(a > 0, Select(ex.S.ghost['vlive'], a)))
        s.so = s.unit.delta['Pair.second'] + s.unit.fields['Pair.second'][1] - s.unit.delta['Pair.first'] - s.unit.fields['Pair.first'][1]
    def parts(s, ex, dem):
        m = re.match(r'Elem::Elem<(.*)>\(', dem)
        if m:
            kt, vt = re.match(r'(Key(?: const&|&)?), (Val(?: const&|&)?)$', m.group(1)).groups()
            return lambda ex, a, i: s.make(ex, a, kt == 'Key', vt == 'Val')
        if dem.startswith('Key::'): return s.elem_callee(ex, dem.replace('Key', 'Elem'), dem)
        if dem.startswith('Val::'): return s.val_callee(dem[5:])
        if dem.startswith('Elem& Elem::') or dem.startswith('Elem::'): return s.elem_callee(ex, dem, dem)
    def callee(s, ex, dem, name): return s.parts(ex, dem) or super().callee(ex, dem, name)
    def make(s, ex, a, krv, vrv):
        p, k, v = (x.addr() for x in a[:3]); s.need(ex, k, 'the key'); s.vneed(ex, v, 'the value'); c = fresh('pair', I)
        ex.assume(And(RANKE(c) == RANKE(s.vl(ex, k)), PF(c) == s.vl(ex, k), PS(c) == Select(ex.S.ghost['vval'], v)))
        s.begin(ex, p, c); ex.S.x['made'] = (c,)
        if krv: ex.setg('val', Store(ex.S.ghost['val'], k, fresh('moved', I)))
        if vrv: ex.setg('vval', Store(ex.S.ghost['vval'], v, fresh('moved', I)))
    def vneed(s, ex, a, what): ex.oblige('%s is a live value' % what, Select(ex.S.ghost['vlive'], a), 'lifetime')
    def inpair(s, ex, a):
        """the pair this value is part of (known by the node it lies in), or None"""
        for t in ex.S.x.get('TN', ()) + ex.S.x.get('G', ()):
            d = simplify(a - t)
            if is_int_value(d) and d.as_long() == s.doff + s.so: return simplify(t + s.doff)
    def vget(s, ex, a, what):
        q = s.inpair(ex, a)
        if q is None: s.vneed(ex, a, what); return Select(ex.S.ghost['vval'], a)
        s.need(ex, q, what); return PS(s.vl(ex, q))
    def vset(s, ex, a, v, what):
        q = s.inpair(ex, a)
        if q is None: s.vneed(ex, a, what); ex.setg('vval', Store(ex.S.ghost['vval'], a, v)); return
        s.need(ex, q, what); c, o = fresh('pair', I), s.vl(ex, q)
        ex.assume(And(RANKE(c) == RANKE(o), PF(c) == PF(o), PS(c) == v)); ex.setg('val', Store(ex.S.ghost['val'], q, c))
    def vbegin(s, ex, a, v):
        if is_int_value(a) and a.as_long() < 0: ex.assume(Not(Select(ex.S0.ghost['vlive'], a)))
        ex.oblige('no value is constructed over a live one', Not(Select(ex.S.ghost['vlive'], a)), 'lifetime')
        ex.setg('vlive', Store(ex.S.ghost['vlive'], a, BoolVal(True))); ex.setg('vval', Store(ex.S.ghost['vval'], a, v))
    def val_callee(s, m):
        def ctor0(ex, a, i): s.vbegin(ex, a[0].addr(), IntVal(0))
        def copy(ex, a, i): s.vbegin(ex, a[0].addr(), s.vget(ex, a[1].addr(), 'the copied value'))
        def movec(ex, a, i): s.vbegin(ex, a[0].addr(), s.vget(ex, a[1].addr(), 'the moved value')); s.vset(ex, a[1].addr(), fresh('moved', I), 'the moved value')
        def asg(ex, a, i): s.vset(ex, a[0].addr(), s.vget(ex, a[1].addr(), 'the assigned value'), 'the target of an assignment'); return a[0]
        def masg(ex, a, i):
            v = s.vget(ex, a[1].addr(), 'the assigned value'); s.vset(ex, a[0].addr(), v, 'the target of an assignment'); s.vset(ex, a[1].addr(), fresh('moved', I), 'the moved value'); return a[0]
        def dtor(ex, a, i):
            d = a[0].addr(); s.vneed(ex, d, 'the destroyed value'); ex.setg('vlive', Store(ex.S.ghost['vlive'], d, BoolVal(False)))
        return {'Val()': ctor0, 'Val(Val const&)': copy, 'Val(Val&&)': movec, 'operator=(Val const&)': asg, 'operator=(Val&&)': masg, '~Val()': dtor}.get(m)
    def vclean(s, ex, but=()):
        g, g0 = ex.S.ghost, ex.S0.ghost; a = Int('qn')
        ex.oblige('no other value is constructed or destroyed', ForAll([a], Implies(a > 0, Select(g['vlive'], a) == Select(g0['vlive'], a))), 'postcondition', False)
        ex.oblige('no other value changes', ForAll([a], Implies(And(a > 0, *[a != b for b in but]), Select(g['vval'], a) == Select(g0['vval'], a))), 'postcondition', False)

# ---------------------------------------------------------------------- the pair, part by part
class PairOp(Parts, Life, Spec):
    """how: ctor (krv, vrv), copy, move, assign, massign, dtor"""
    how = 'ctor'; krv = vrv = False; timeout = 10000
    def setup(s, ex):
        s.heap(ex); s.life(ex); s.vlife(ex); s.objects = []; s.doff = 0
        s.fo = s.unit.delta['Pair.first'] + s.unit.fields['Pair.first'][1]; s.vo = s.unit.delta['Pair.second'] + s.unit.fields['Pair.second'][1]
        A = s.A = [s.argp(ex, i, 'Pair' if i == 0 or s.how != 'ctor' else None) for i in range(len(ex.args))]
        k = lambda a: s.lv(ex, a); v = lambda a: Select(ex.S.ghost['vlive'], a); d = A[0]
        for i, a in enumerate(A):
            for b in A[:i]: ex.assume(Or(a + s.unit.sizeof('Pair') <= b, b + s.unit.sizeof('Pair') <= a))
        f = (k(d + s.fo), v(d + s.vo))
        if s.how in ('ctor', 'copy', 'move'): ex.assume(And(Not(f[0]), Not(f[1])))
        else: ex.assume(And(*f))
        if s.how == 'ctor': ex.assume(And(k(A[1]), v(A[2])))
        elif len(A) > 1: ex.assume(And(k(A[1] + s.fo), v(A[1] + s.vo)))
    def inpair(s, ex, a): return None
    def callee(s, ex, dem, name):
        if dem.startswith('Key::'): return s.elem_callee(ex, dem.replace('Key', 'Elem'), dem)
        if dem.startswith('Val::'): return s.val_callee(dem[5:])
        return Spec.callee(s, ex, dem, name)
    def post(s, ex, ret):
        g, g0 = ex.S.ghost, ex.S0.ghost; A = s.A; d = A[0]; kd, vd = d + s.fo, d + s.vo
        ks, vs = (None, None) if len(A) == 1 else (A[1], A[2]) if s.how == 'ctor' else (A[1] + s.fo, A[1] + s.vo)
        lives = s.how != 'dtor'
        kl = Store(g0['live'], kd, BoolVal(lives)); vl = Store(g0['vlive'], vd, BoolVal(lives)); a = Int('qn')
        s.ens(ex, 'the key is %s' % ('live' if lives else 'destroyed'), Select(g['live'], kd) == BoolVal(lives)); s.ens(ex, 'the value is %s' % ('live' if lives else 'destroyed'), Select(g['vlive'], vd) == BoolVal(lives))
        ex.oblige('no other object is constructed or destroyed', ForAll([a], And(Implies(a > 0, Select(g['live'], a) == Select(kl, a)), Implies(a > 0, Select(g['vlive'], a) == Select(vl, a)))), 'postcondition', False)
        if ks is not None:
            s.ens(ex, 'the key is that of the source', Select(g['val'], kd) == Select(g0['val'], ks)); s.ens(ex, 'the value is that of the source', Select(g['vval'], vd) == Select(g0['vval'], vs))
        mv = s.how in ('move', 'massign')
        ex.oblige('no other key or value changes', ForAll([a], And(Implies(And(a > 0, a != kd, *([a != ks] if mv or s.krv else [])), Select(g['val'], a) == Select(g0['val'], a)), Implies(And(a > 0, a != vd, *([a != vs] if mv or s.vrv else [])), Select(g['vval'], a) == Select(g0['vval'], a)))), 'postcondition', False)
        if s.how in ('massign', 'assign'): s.ens(ex, 'returns the pair', ret.addr() == d)
        s.ens(ex, 'nothing else is written', BoolVal(not ex.S.written and not [e for e in ex.S.log if e[0] in ('alloc', 'free')]))
class PairCmp(PairOp):
    ispair = (True, True)
    def setup(s, ex):
        s.heap(ex); s.life(ex); s.vlife(ex); s.objects = []; s.doff = 0
        s.fo = s.unit.delta['Pair.first'] + s.unit.fields['Pair.first'][1]
        s.ks = [s.argp(ex, i + 1, 'Pair' if p else None) + (s.fo if p else 0) for i, p in enumerate(s.ispair)]
        for k in s.ks: ex.assume(s.lv(ex, k))
    def callee(s, ex, dem, name): return s.kcmp if dem.startswith('KCmp::operator()') else None
    def kcmp(s, ex, args, ins): return TS.cmp(s, ex, args, ins)
    def post(s, ex, ret):
        x, y = (RANKE(Select(ex.S0.ghost['val'], k)) for k in s.ks); neg = ret >= (1 << 31)
        s.ens(ex, 'compares the keys', And(neg == (x < y), And(ret > 0, Not(neg)) == (x > y)))
        s.ens(ex, 'nothing is written', BoolVal(not ex.S.written and ex.S.ghost['val'] is ex.S0.ghost['val'] and ex.S.ghost['live'] is ex.S0.ghost['live'] and not ex.S.log))

# ---------------------------------------------------------------------- operator[]: written on the nodes
class Shift:
    def __init__(s, p, d): s.p, s.d = p, d
    def addr(s): return s.p.addr() - s.d
class Index(Parts, ST.RInsert):
    krv = False
    def setup(s, ex):
        super().setup(ex); s.vlife(ex)
    def given(s, ex): return ex.S.x['made'][0] if 'made' in ex.S.x else Select(ex.S0.ghost['val'], ex.args[1].addr())
    def inv2(s, ex, V, r, p, r2, q):
        yield from super().inv2(ex, V, r, p, r2, q); k = RANKE(Select(ex.S.ghost['val'], ex.args[1].addr()))
        yield '%s is a node unless %s is the root' % (r2, r), Or(p == V.root, And(q != 0, Select(V.N, q)))
        yield 'the key belongs in the span of %s unless %s is the root' % (r2, r), s.all1(lambda m: Implies(p != V.root, s.bounds(V, q, k, True)(m)))
    def post(s, ex, ret):
        g0 = ex.S0.ghost; a = ex.args[1].addr()
        if 'made' in ex.S.x:
            c = ex.S.x['made'][0]
            s.ens(ex, 'a new pair holds the key and a default value', And(PF(c) == Select(g0['val'], a), PS(c) == 0, RANKE(c) == RANKE(Select(g0['val'], a))))
        super().post(ex, Shift(ret, s.so)); s.vclean(ex)

# ---------------------------------------------------------------------- the map
class RM(Parts, RS):
    def setup(s, ex): super().setup(ex)
    def life(s, ex): super().life(ex); s.vlife(ex)
    def v(s, X, k): return PS(Select(X.val, Select(X.at, k) + s.doff))
    def out(s, ex, i, h, k, what):
        A = s.A[0]; o = ex.args[i].addr()
        s.ens(ex, what, Select(ex.S.ghost['vval'], o) == If(h, s.v(A, k), Select(ex.S0.ghost['vval'], o))); s.vclean(ex, (o,))
class FindV(RM):
    keys = (1,); vouts = (2,)
    def post(s, ex, ret):
        A = s.A[0]; k = s.key0(ex, 1); h = s.held(A, k); s.nothing(ex)
        s.ens(ex, 'true exactly when the key is in the map', ret == h)
        s.out(ex, 2, h, k, 'the output is the value of the key')
class Remove(Parts, ST.RemoveItem):
    vlife_ = True; v = RM.v; out = RM.out
    def life(s, ex): super().life(ex); s.vlife(ex)
    def post(s, ex, ret):
        super().post(ex, ret); A = s.A[0]; k = s.key0(ex, 1)
        if s.vouts: s.out(ex, s.vouts[0], s.held(A, k), k, 'the output is the value of the removed key')
        else: s.vclean(ex)
class RemoveIt(RM):
    def pre(s, ex):
        n = s.argp(ex, 1, 'Node', False); ex.assume(Or(n == 0, Select(s.A[0].N, n))); s.note(ex, n); s.n = n
    def post(s, ex, ret):
        A, B = s.A[0], s.sv(ex, 0); n = s.n; k = s.notek(ex, Select(A.kk, n)); r = s.note(ex, ret.addr())
        ex.oblige('exactly the key of the iterator is removed', all_k(lambda q: s.held(B, q) == And(s.held(A, q), Or(n == 0, q != k))), 'postcondition', False)
        ex.oblige('the other keys keep their value', all_k(lambda q: Implies(s.held(B, q), Select(B.val, Select(B.at, q) + s.doff) == Select(A.val, Select(A.at, q) + s.doff))), 'postcondition', False)
        s.ens(ex, 'the size counts the keys', s.rd(ex, 'Tree.num', s.t[0]) == s.rd(ex, 'Tree.num', s.t[0], ex.S0) - If(n != 0, 1, 0))
        s.ens(ex, 'removing the end gives the end', Implies(n == 0, r == 0))
        s.ens(ex, 'gives an element with a larger key, or the end', Implies(And(n != 0, r != 0), And(Select(B.N, r), Select(B.kk, r) > k)))
        ex.oblige('no key between is skipped', all_k(lambda q: Implies(And(n != 0, s.held(B, q), q > k), And(r != 0, q >= Select(B.kk, r)))), 'postcondition', False)
        for nm, f in s.owned(A, B, None): ex.oblige(nm, all_n(f), 'postcondition', False)
        s.vclean(ex); s.ok(ex, 0)
class InsertV(RM):
    keys = (1,); vals = (2,); rv = False
    def pre(s, ex):
        if s.rv:
            for A in s.A: s.know(ex, 'n', lambda n, A=A: Implies(Select(A.N, n), n + s.doff != ex.args[1].addr()))
    def post(s, ex, ret):
        A, B = s.A[0], s.sv(ex, 0); k = s.key0(ex, 1); g0 = ex.S0.ghost; c = Select(B.val, Select(B.at, k) + s.doff); a, v = ex.args[1].addr(), ex.args[2].addr()
        ex.oblige('the map holds exactly its keys and the inserted one', all_k(lambda q: s.held(B, q) == Or(s.held(A, q), q == k)), 'postcondition', False)
        s.ens(ex, 'the key has the given value', And(PS(c) == Select(g0['vval'], v), PF(c) == Select(g0['val'], a)))
        ex.oblige('the other keys keep their value', all_k(lambda q: Implies(And(s.held(A, q), q != k), Select(B.val, Select(B.at, q) + s.doff) == Select(A.val, Select(A.at, q) + s.doff))), 'postcondition', False)
        s.ens(ex, 'refers to the value of the key', ret.addr() == Select(B.at, k) + s.doff + s.so)
        s.ens(ex, 'the size counts the keys', s.rd(ex, 'Tree.num', s.t[0]) == s.rd(ex, 'Tree.num', s.t[0], ex.S0) + If(s.held(A, k), 0, 1))
        for nm, f in s.owned(A, B, None):
            if 'keep' not in nm: ex.oblige(nm, all_n(f), 'postcondition', False)
        s.vclean(ex, (v,) if s.rv else ()); s.ok(ex, 0)
def all_k(f): return ST.all_k(f)
def all_n(f): return ST.all_n(f)

def contracts(u):
    pairs = {n: u.dem(n) for n in u.mod.funcs}
    for n in list(u._dem): u._dem[n] = plain(u._dem[n])
    C = {}
    T = tree.contracts(u)
    for k, c in T.items():
        if k.endswith("'") or not any(x != k and T[x].fname == c.fname for x in T): C[k] = c        # unique keys only
    for k, c in treelife.contracts(u).items():
        if u.fn(k) is not None and re.search('destroySubtree|cloneSubtree', u.dem(k)): C[k] = c
    for n, md in (('map_copy', 'copy'), ('map_assign', 'assign'), ('map_move', 'move'), ('map_massign', 'massign')):
        if u.fn(n) is not None: c = C[n] = ST.RWhole(n, u); c.fname = n; c.mode = md; c.raw = md in ('copy', 'move'); c.istree = (0, 1); c.cost = 4
    C.update(ST.contracts(u))
    def W(n, c, **k):
        if u.fn(n) is None: return
        x = c(n, u); x.fname = n
        for a, v in k.items(): setattr(x, a, v)
        C[n] = x
    W('map_ctor', TCtor, istree=(0,)); W('map_ctorM', TCtor, istree=(0,), mal=True); W('map_dtor', ST.Dtor)
    for n in ('map_getCount', 'map_getNumNodes', 'map_getSize'): W(n, ST.GetSize)
    for n in ('map_cbegin', 'map_begin'): W(n, ST.RExt, istree=(0,))
    for n in ('map_cend', 'map_end'): W(n, ST.End)
    for n in ('map_cbeginK', 'map_beginK', 'map_cfind', 'map_find'): W(n, ST.BeginK)
    for n in ('map_cendK', 'map_endK'): W(n, ST.EndK)
    W('map_has', ST.Has); W('map_findV', FindV)
    W('map_index', Index, cost=3); W('map_index_rv', Index, krv=True, rv=True, cost=3)
    W('map_insert', InsertV); W('map_insert_rv', InsertV, rv=True)
    W('map_remove', Remove); W('map_pop', Remove, vouts=(2,)); W('map_removeIt', RemoveIt)
    for n, d in pairs.items():
        m = re.match('^(?:%s& )?%s::(~?Pair|operator=)(?:<(.*)>)?\\((.*)\\)' % (PAIR, PAIR), d)
        if m:
            f, t, a = m.groups()
            if t: W(n, PairOp, krv=t.startswith('Key,'), vrv=t.endswith(' Val'))
            else: W(n, PairOp, how='dtor' if f == '~Pair' else ('massign' if f == 'operator=' else 'move') if '&&' in a else 'assign' if f == 'operator=' else 'copy')
        m = re.match(PAIR + r'::FindPair::operator\(\)\((.*)\) const$', d)
        if m: W(n, PairCmp, ispair=tuple(x.startswith('Pair') for x in re.split(r', (?=Key|Pair)', m.group(1))))
    return C
