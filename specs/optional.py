"""Contracts for templates/optional.h.

Invariant of an optional o over Elem: engaged(o) iff the element at its storage is alive.  Every operation states the new
engaged flag and value, and that no other element's lifetime or value changes (so nothing leaks or is destroyed twice)."""
from speclib import *
UNIT = 'optional.cpp'

class OS(Life, Spec):
    ctor = False; args_ = ('o',); size = 16
    def setup(s, ex):
        s.objects = []; s.heap(ex); s.life(ex); s.a = []
        for k, kind in enumerate(s.args_):
            p = s.argp(ex, k, 'Opt' if kind in 'od' else None); s.a.append(p)
            ex.assume(p % 8 == 0)
            for q in s.a[:-1]: ex.assume(Or(p + 16 <= q, q + 16 <= p))
            ex.assume(p + 16 < (1 << 63)); s.objects.append(p)
            if kind == 'o': ex.assume(s.inv_f(ex, p))
            if kind in 'dx': ex.assume(Not(s.lv(ex, p)))
            if kind == 'e': ex.assume(s.lv(ex, p))
    def eng(s, ex, p, S=None): return s.rd(ex, 'Opt.engaged', p, S) != 0
    def inv_f(s, ex, p, S=None): return And(Or(s.rd(ex, 'Opt.engaged', p, S) == 0, s.rd(ex, 'Opt.engaged', p, S) == 1), s.eng(ex, p, S) == s.lv(ex, p, S))
    def valid(s, ex, p, key, idx, size, how):
        return Or(*[idx == o for o in s.objects]) if s.objects else BoolVal(False)
    def storage_ok(s, ex, a): return Or(*([a == o for o, k in zip(s.a, s.args_) if k in 'odx'] + [a < 0]))
    def callee(s, ex, dem, name): return s.elem_callee(ex, dem, name) or super().callee(ex, dem, name)
    def post(s, ex, ret):
        S0 = ex.S0; touched = []; vt = []
        for k, (p, kind) in enumerate(zip(s.a, s.args_)):
            if kind in 'od' and not (s.name.endswith('dtor') and k == 0): s.ens(ex, 'argument %d: a value is alive exactly when engaged' % k, s.inv_f(ex, p))
            if kind == 'e': s.ens(ex, 'argument %d stays alive' % k, s.lv(ex, p))
        s.spec(ex, ret)
        s.same_life(ex, s.a, s.a)
    def is_(s, ex, k, e, v):
        """optional k is engaged iff e, then with value v"""
        s.ens(ex, 'optional %d has a value exactly when it should' % k, s.eng(ex, s.a[k]) == e)
        s.ens(ex, 'optional %d holds the right value' % k, Implies(e, s.vl(ex, s.a[k]) == v))
    def same(s, ex, k):
        if s.args_[k] == 'o': s.ens(ex, 'source optional unchanged', And(s.eng(ex, s.a[k]) == s.eng(ex, s.a[k], ex.S0), Implies(s.eng(ex, s.a[k]), s.vl(ex, s.a[k]) == s.vl(ex, s.a[k], ex.S0))))
        else: s.ens(ex, 'source value unchanged', s.vl(ex, s.a[k]) == s.vl(ex, s.a[k], ex.S0))
    def ret0(s, ex, ret): s.ens(ex, 'returns the optional', ret.addr() == s.a[0])
    def E0(s, ex, k): return s.eng(ex, s.a[k], ex.S0)
    def V0(s, ex, k): return s.vl(ex, s.a[k], ex.S0)
T, F_ = BoolVal(True), BoolVal(False)
def mk(C, u, n, args, spec):
    c = type('O_' + n, (OS,), dict(args_=args, spec=spec))
    C[n] = c(n, u)

# the same contracts over an integer value: the value is plain memory
class NS(Spec):
    args_ = ('o',)
    def setup(s, ex):
        s.heap(ex); s.objects = []; s.a = []
        for k, kind in enumerate(s.args_):
            p = s.argp(ex, k, 'Int' if kind in 'od' else None); s.a.append(p); s.objects.append(p)
            for q in s.a[:-1]: ex.assume(Or(p + 8 <= q, q + 8 <= p))
            if kind == 'o': ex.assume(Or(s.rd(ex, 'Int.engaged', p) == 0, s.rd(ex, 'Int.engaged', p) == 1))
        if any(k in 'xe' for k in s.args_): ex.mem(('raw', 'i32'), I)
    def valid(s, ex, p, key, idx, size, how): return Or(*[idx == o for o in s.objects])
    def eng(s, ex, p, S=None): return s.rd(ex, 'Int.engaged', p, S) != 0
    def V(s, ex, k, S=None): return s.rd(ex, 'Int.val', s.a[k], S) if s.args_[k] in 'od' else Select(ex.mem(('raw', 'i32'), I, S), s.a[k])
    def is_(s, ex, k, e, v):
        s.ens(ex, 'optional %d has a value exactly when it should' % k, s.eng(ex, s.a[k]) == e)
        s.ens(ex, 'optional %d holds the right value' % k, Implies(e, s.V(ex, k) == v))
    def same(s, ex, k):
        if s.args_[k] == 'o': s.ens(ex, 'source optional unchanged', And(s.eng(ex, s.a[k]) == s.eng(ex, s.a[k], ex.S0), Implies(s.eng(ex, s.a[k]), s.V(ex, k) == s.V(ex, k, ex.S0))))
        else: s.ens(ex, 'source value unchanged', s.V(ex, k) == s.V(ex, k, ex.S0))
    def ret0(s, ex, ret): s.ens(ex, 'returns the optional', ret.addr() == s.a[0])
    def E0(s, ex, k): return s.eng(ex, s.a[k], ex.S0)
    def V0(s, ex, k): return s.V(ex, k, ex.S0)
    def post(s, ex, ret): s.spec(ex, ret)
    life_ = False

def contracts(u):
    C = {}
    def both(n, args, spec):
        C['opt_' + n] = type('O_' + n, (OS,), dict(args_=args, spec=spec))('opt_' + n, u)
        C['oi_' + n] = type('N_' + n, (NS,), dict(args_=args, spec=spec))('oi_' + n, u)
    def copyto(s, ex, ret):
        s.is_(ex, 0, s.E0(ex, 1), s.V0(ex, 1)); s.same(ex, 1)
        if ret is not None: s.ret0(ex, ret)
    def moveto(s, ex, ret):
        s.is_(ex, 0, s.E0(ex, 1), s.V0(ex, 1))
    def massign(s, ex, ret):
        s.is_(ex, 0, s.E0(ex, 1), s.V0(ex, 1)); s.ens(ex, 'the source of a move assignment is empty', Not(s.eng(ex, s.a[1]))); s.ret0(ex, ret)
    def fromval(s, ex, ret):
        s.is_(ex, 0, T, s.V0(ex, 1)); s.same(ex, 1)
        if ret is not None: s.ret0(ex, ret)
    def fromrv(s, ex, ret):
        s.is_(ex, 0, T, s.V0(ex, 1))
        if ret is not None: s.ret0(ex, ret)
    def empty(s, ex, ret): s.is_(ex, 0, F_, IntVal(0))
    def dt(s, ex, ret):
        if isinstance(s, OS): s.ens(ex, 'the value is destroyed', Not(s.lv(ex, s.a[0])))
    def selfc(s, ex, ret): s.is_(ex, 0, s.E0(ex, 0), s.V0(ex, 0)); s.ret0(ex, ret)
    def selfm(s, ex, ret): s.ret0(ex, ret)
    def keep(s, ex): s.is_(ex, 0, s.E0(ex, 0), s.V0(ex, 0))
    def has(s, ex, ret): s.ens(ex, 'reports whether it is engaged', ret == s.E0(ex, 0)); keep(s, ex)
    def deref(s, ex, ret):
        s.ens(ex, 'refers to the stored value', ret.addr() == s.a[0]); keep(s, ex)
    def take(s, ex, ret):
        s.ens(ex, 'the value is moved out', s.lv(ex, s.a[0]) if isinstance(s, OS) else T); s.ens(ex, 'the value moved out is the stored one', (s.vl(ex, s.a[0]) if isinstance(s, OS) else s.V(ex, 0)) == s.V0(ex, 1)); s.ens(ex, 'still engaged', s.eng(ex, s.a[1]))
    def setup_eng(c):
        o = c.setup
        def f(ex): o(ex); ex.assume(c.eng(ex, c.a[[i for i, k in enumerate(c.args_) if k == 'o'][0]]))
        c.setup = f
    both('default', 'd', empty); both('copy', 'do', copyto); both('copy_nc', 'do', copyto); both('move', 'do', moveto)
    both('value', 'de', fromval); both('value_nc', 'de', fromval); both('value_rv', 'de', fromrv); both('dtor', 'o', dt)
    both('assign', 'oo', copyto); both('assign_self', 'o', selfc); both('massign', 'oo', massign); both('massign_self', 'o', selfm)
    both('set', 'oe', fromval); both('set_rv', 'oe', fromrv); both('emplace', 'oe', fromval); both('emplace_rv', 'oe', fromrv); both('reset', 'o', empty)
    both('has', 'o', has); both('bool', 'o', has)
    for n in ('deref', 'cderef', 'arrow', 'carrow'):
        both(n, 'o', deref)
        for p in ('opt_', 'oi_'): setup_eng(C[p + n])
    both('deref_rv', 'xo', take)
    for p in ('opt_', 'oi_'): setup_eng(C[p + 'deref_rv'])
    C['opt_emplace0'] = type('E0', (OS,), dict(args_='o', spec=lambda s, ex, ret: s.is_(ex, 0, T, IntVal(0))))('opt_emplace0', u)
    C['opt_emplace_k'] = type('Ek', (OS,), dict(args_='o', spec=lambda s, ex, ret: s.is_(ex, 0, T, ex.args[1])))('opt_emplace_k', u)
    return C
