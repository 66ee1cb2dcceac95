"""Shared vocabulary for contracts: heap ghost state, allocator contracts, quantifier helpers."""
import z3
from z3 import *
import vc
from vc import *

AB = ArraySort(I, BoolSort())
AI = ArraySort(I, I)

def forall(names, body, pats=None):
    """forall(['i'], lambda i: ..., lambda i: [pattern terms])"""
    vs = [Int('q_%s_%d' % (n, forall.k)) for n in names]
    forall.k += 1
    b = body(*vs)
    if is_true(b): return b
    ps = []
    if pats:
        r = pats(*vs)
        for p in r:
            ps.append(MultiPattern(*p) if isinstance(p, (tuple, list)) else p)
    return ForAll(vs, b, patterns=ps) if ps else ForAll(vs, b)
forall.k = 0

class Spec(vc.Contract):
    """Base of all function contracts.  Ghost heap: alive (set of live block starts), bsize (their sizes)."""
    objs = ()
    def __init__(s, name, unit):
        s.name = name; s.unit = unit
    def f(s, ex, fld, S=None):
        """current map of a field, e.g. f(ex,'Link.next')"""
        k = s.unit.fields.get(fld)
        if k is None: raise Unsupported('no field ' + fld)
        return ex.mem(k, None, S)
    def rd(s, ex, fld, n, S=None):
        m = s.f(ex, fld, S); d = s.unit.delta.get(fld, 0)
        return Select(m, n if d == 0 else n + d)
    def heap(s, ex):
        ex.setg('alive', Const('alive0', AB)); ex.setg('bsize', Const('bsize0', AI))
        ex.assume(Not(Select(ex.S.ghost['alive'], IntVal(0))))
    def alive(s, ex, n, S=None): return Select((S or ex.S).ghost['alive'], n)
    def argp(s, ex, i, struct=None, nonnull=True):
        """argument i as a pointer to the named struct"""
        p = ex.args[i]
        if struct is not None:
            q = ex.typed(p.base, s.unit.structs[struct])
            ex.args[i] = q; ex.S.regs[ex.f.params[i][1]] = q; p = q
        ex.assume(p.addr() > 0 if nonnull else p.addr() >= 0)
        return p.addr()
    def callee(s, ex, dem, name):
        h = getattr(s, 'callees', {})
        for rx, fn in h.items():
            import re
            if re.search(rx, dem): return fn
        if re_ign.search(dem) or re_ign.search(name): return lambda ex, args, ins: ex.freshval(ins.ty, 'io') if ins.res else None
        return None
    def vcall(s, ex, slot):
        sl = s.unit.slots
        if slot == sl.get('alloc'): return s.malloc_alloc
        if slot == sl.get('free'): return s.malloc_free
        if slot == sl.get('realloc'): return s.malloc_realloc
        return None
    # ---- assumed contract of MallocBase (allocation succeeds, returns a fresh aligned block)
    def malloc_alloc(s, ex, args, ins):
        n, al = args[1], args[2]
        p = fresh('new', I); g = ex.S.ghost
        ex.assume(p > 0); ex.assume(Not(Select(g['alive'], p)))
        for o in s.objs_now(ex): ex.assume(p != o)
        s.fresh_facts(ex, p, n)
        if getattr(s, 'ranges', False):
            a, b = g['alive'], g['bsize']
            ex.assume(forall(['q'], lambda q: Implies(Select(a, q), Or(q + Select(b, q) <= p, p + n <= q)), lambda q: [Select(a, q)]))
            ex.assume(p + n < (1 << 63))
        ex.setg('alive', Store(g['alive'], p, BoolVal(True))); ex.setg('bsize', Store(g['bsize'], p, n))
        ex.S.log.append(('alloc', p, n, al))
        s.on_alloc(ex, p, n)
        return ex.typed(p, s.unit.structs.get(getattr(s, 'alloc_type', None)) if getattr(s, 'alloc_type', None) else None)
    def fresh_facts(s, ex, p, n): pass
    def on_alloc(s, ex, p, n): pass
    def on_free(s, ex, p): pass
    def objs_now(s, ex): return list(s.objects)
    objects = ()
    def malloc_free(s, ex, args, ins):
        p = args[1].addr(); g = ex.S.ghost
        ex.oblige('free() is given a live block (no double free, no foreign pointer)', Or(p == 0, Select(g['alive'], p)), 'memory')
        ex.setg('alive', Store(g['alive'], p, BoolVal(False)))
        ex.S.log.append(('free', p))
        s.on_free(ex, p)
        return None
    def malloc_realloc(s, ex, args, ins):
        raise Unsupported('realloc')
    def valid(s, ex, p, key, idx, size, how):
        """default: field access needs a live node, or one of the argument objects"""
        if key == ('raw', 'vtable'): return None
        os_ = s.objs_now(ex)
        if any(idx.eq(o) for o in os_): return None
        return Or(Select(ex.S.ghost['alive'], idx), *[idx == o for o in os_])
    def setup(s, ex): pass
    def post(s, ex, ret): pass
    def ens(s, ex, name, f):
        ex.oblige(name, f, 'postcondition')

import re
re_ign = re.compile(r'^(fprintf|printf|puts|putchar|fputs|fputc|fwrite|abort)\b')

def defarr(ex, name, body, rng=I):
    """a fresh array defined pointwise: A[k] == body(k) for all k"""
    A = fresh(name, ArraySort(I, rng))
    ex.assume(forall(['k'], lambda k: Select(A, k) == body(k), lambda k: [Select(A, k)]))
    return A

class Life:
    """Element lifetimes: ghost live (addresses of live elements) and val (their values); the opaque struct Elem of units/elem.h.
    Every constructor, assignment, destructor and comparison of Elem is a call with these contracts (assumed of any element type)."""
    esz = 1
    def life(s, ex):
        ex.setg('live', Const('live0', AB)); ex.setg('val', Const('val0', AI))
    def ea(s, ex, p): return ex.exdiv(p.addr(), s.esz)
    def lv(s, ex, a, S=None): return Select((S or ex.S).ghost['live'], a)
    def vl(s, ex, a, S=None): return Select((S or ex.S).ghost['val'], a)
    def storage_ok(s, ex, a): return None      # obligation: an element may be constructed here
    def begin(s, ex, a, v):
        f = s.storage_ok(ex, a)
        if f is not None: ex.oblige('elements are constructed in storage of the container', f, 'lifetime')
        ex.oblige('no element is constructed over a live one', Not(s.lv(ex, a)), 'lifetime')
        ex.setg('live', Store(ex.S.ghost['live'], a, BoolVal(True))); ex.setg('val', Store(ex.S.ghost['val'], a, v))
    def need(s, ex, a, what): ex.oblige('%s is a live element' % what, s.lv(ex, a), 'lifetime')
    def elem_callee(s, ex, dem, name):
        if not dem.startswith('Elem::'): return None
        m = dem[6:]
        def ctor0(ex, a, i): ex.S.log.append(('ctor0', s.ea(ex, a[0]))); s.begin(ex, s.ea(ex, a[0]), IntVal(0))
        def ctorv(ex, a, i): s.begin(ex, s.ea(ex, a[0]), a[1])
        def copy(ex, a, i):
            d, q = s.ea(ex, a[0]), s.ea(ex, a[1]); s.need(ex, q, 'the copied element'); s.begin(ex, d, s.vl(ex, q))
        def movec(ex, a, i):
            d, q = s.ea(ex, a[0]), s.ea(ex, a[1]); s.need(ex, q, 'the moved element'); s.begin(ex, d, s.vl(ex, q))
            ex.setg('val', Store(ex.S.ghost['val'], q, fresh('moved', I)))
        def asg(ex, a, i):
            d, q = s.ea(ex, a[0]), s.ea(ex, a[1]); s.need(ex, q, 'the assigned element'); s.need(ex, d, 'the target of an assignment')
            ex.setg('val', Store(ex.S.ghost['val'], d, s.vl(ex, q))); return a[0]
        def masg(ex, a, i):
            d, q = s.ea(ex, a[0]), s.ea(ex, a[1]); s.need(ex, q, 'the assigned element'); s.need(ex, d, 'the target of an assignment')
            v = s.vl(ex, q); ex.setg('val', Store(Store(ex.S.ghost['val'], d, v), q, fresh('moved', I))); return a[0]
        def dtor(ex, a, i):
            d = s.ea(ex, a[0]); s.need(ex, d, 'the destroyed element'); ex.setg('live', Store(ex.S.ghost['live'], d, BoolVal(False)))
        def rel(op):
            def f(ex, a, i):
                x, y = s.ea(ex, a[0]), s.ea(ex, a[1]); s.need(ex, x, 'a compared element'); s.need(ex, y, 'a compared element')
                x, y = s.vl(ex, x), s.vl(ex, y)
                return {'==': EEQ(x, y), '!=': Not(EEQ(x, y)), '<': RANKE(x) < RANKE(y), '>': RANKE(x) > RANKE(y), '<=': RANKE(x) <= RANKE(y), '>=': RANKE(x) >= RANKE(y)}[op]
            return f
        if m == 'Elem()': return ctor0
        if m == 'Elem(long)' or m == 'Elem(long long)': return ctorv
        if m == 'Elem(Elem const&)': return copy
        if m == 'Elem(Elem&&)': return movec
        if m == 'operator=(Elem const&)': return asg
        if m == 'operator=(Elem&&)': return masg
        if m == '~Elem()': return dtor
        r = re.match(r'operator(==|!=|<=|>=|<|>)\(', m)
        return rel(r.group(1)) if r else None
    def same_life(s, ex, but=(), vbut=None):
        """lifetimes (and values of live elements) outside `but` are as at entry; `but` are addresses"""
        g, g0 = ex.S.ghost, ex.S0.ghost; vbut = but if vbut is None else vbut
        s.ens(ex, 'frame: no other element is constructed or destroyed', forall(['a'], lambda a: Implies(And(*[a != b for b in but]), Select(g['live'], a) == Select(g0['live'], a)), lambda a: [Select(g['live'], a)]))
        s.ens(ex, 'frame: values of other live elements unchanged', forall(['a'], lambda a: Implies(And(Select(g0['live'], a), *[a != b for b in vbut]), Select(g['val'], a) == Select(g0['val'], a)), lambda a: [Select(g['val'], a)]))
EEQ = Function('EEQ', I, I, BoolSort())
RANKE = Function('RANKE', I, I)
