"""Contracts for containers/tuple.h, containers/pair.h and templates/array.h.

Components are opaque elements (ghost lifetimes and values, see speclib.Life) and integers.  Every constructor, copy, move and
assignment is specified component by component; every accessor returns the address of exactly its component.  Comparison of pairs
is the comparator applied to the keys."""
from speclib import *
from ir import IntT
UNIT = 'tuple.cpp'
CMP = Function('CMP', I, I, I)
R32 = ('raw', 'i32')
LAY = dict(t4='eiei', t1='e', p2='ei', p3='ee', ae='eee', ai='iiiii')
ST = dict(t4='T4', t1='T1', p2='P2', p3='P3', ae='AE', ai='AI')
class TS(Life, Spec):
    unroll = True; P = None; args_ = 'o'
    def size(s): return dict(t4=40, t1=8, p2=16, p3=16, ae=32, ai=32)[s.P]
    def ecount(s): return 3 if s.P == 'ae' else 5
    def eaddr(s, p, k):
        if s.P == 'ae': return p + 8 * k
        return p + s.unit.delta['%s.e%d' % (ST[s.P], k)]
    def setup(s, ex):
        s.heap(ex); s.life(ex); s.objects = []; s.a = []; ex.mem(R32, I); s.rng = []
        for k, kind in enumerate(s.args_):
            if kind in 'od':
                p = s.argp(ex, k, ST[s.P]); ex.assume(p + s.size() < (1 << 63)); ex.assume(p % 8 == 0); s.sep(ex, p, s.size()); s.a.append(p); s.objects.append(p)
                if kind == 'o': s.alive_(ex, p, lambda f: ex.assume(f))
                else:
                    for c, a in s.es(p): ex.assume(Not(s.lv(ex, a)))
            elif kind == 'e':
                p = s.argp(ex, k); s.sep(ex, p, 8); s.a.append(p); ex.assume(s.lv(ex, p))
            elif kind == 'E':      # three elements
                p = s.argp(ex, k); s.sep(ex, p, 24); s.a.append(p)
                for i in range(3): ex.assume(s.lv(ex, p + 8 * i))
            elif kind in 'IpP':     # five integers / one integer by reference
                p = s.argp(ex, k); s.sep(ex, p, 20 if kind == 'I' else 4 if kind == 'p' else 8); s.a.append(p); s.refs = getattr(s, 'refs', []) + [(p, 20 if kind == 'I' else 8)]
            else: s.a.append(ex.args[k])
        s.pre(ex)
    def pre(s, ex): pass
    def region(s, ex, p, ty):
        key, idx = ex.region0(p, ty, None)
        return (key if key[0] == 'raw' else s.unit.canon(key)), idx
    def sep(s, ex, p, n):
        for q, m in s.rng: ex.assume(Or(p + n <= q, q + m <= p))
        s.rng.append((p, n))
    def es(s, p): return [(k, s.eaddr(p, k)) for k, c in enumerate(LAY[s.P]) if c == 'e']
    def alive_(s, ex, p, f, S=None):
        for k, a in s.es(p): f(s.lv(ex, a, S))
        if s.P in ('ae', 'ai'): f(s.rd(ex, ST[s.P] + '.count', p, S) == s.ecount())
    def cell(s, ex, p, k, S=None):
        if LAY[s.P][k] == 'e': return s.vl(ex, s.eaddr(p, k), S)
        if s.P == 'ai': return Select(ex.mem(R32, I, S), p + 4 * k)
        return s.rd(ex, '%s.i%d' % (ST[s.P], k), p, S)
    def n(s): return len(LAY[s.P])
    def valid(s, ex, p, key, idx, size, how):
        return Or(idx < 0, *[And(o <= idx, idx + size <= o + s.size()) for o in s.objects] + [And(q <= idx, idx + size <= q + m) for q, m in getattr(s, 'refs', [])])
    def storage_ok(s, ex, a): return Or(a < 0, *[a == x for p, k in zip(s.a, s.args_) if k in 'd' for _, x in s.es(p)])
    def cmpres(s, x, y): return CMP(x, y) % (1 << 32)      # the comparator returns any 32-bit integer
    def callee(s, ex, dem, name):
        if dem.startswith('Cmp::operator()'):
            def f(ex, a, i):
                x, y = a[-2].addr(), a[-1].addr(); s.need(ex, a[-2].addr(), 'a compared element'); s.need(ex, y, 'a compared element'); return s.cmpres(s.vl(ex, x), s.vl(ex, y))
            return f
        return s.elem_callee(ex, dem, name) or super().callee(ex, dem, name)
    def memset(s, ex, d, v, n):
        n = simplify(n)
        if s.P == 'ai' and is_int_value(n) and n.as_long() % 4 == 0:
            for k in range(n.as_long() // 4): ex.store(Ptr(d.addr() + 4 * k), IntVal(0), IntT(32), None)
            return True
    def memmove(s, ex, d, q, n):
        n = simplify(n) if not isinstance(n, int) else IntVal(n)
        if s.P != 'ai' or not is_int_value(n) or n.as_long() not in (20, 32): return False
        v = [ex.load(Ptr(q.addr() + 4 * k), IntT(32), None) for k in range(5)]
        c = s.rd(ex, 'AI.count', q.addr()) if n.as_long() == 32 else None
        for k in range(5): ex.store(Ptr(d.addr() + 4 * k), v[k], IntT(32), None)
        if c is not None:
            key = s.unit.fields['AI.count']; s_ = s.unit.delta['AI.count']; ex.S.mem[key] = Store(ex.mem(key, I), d.addr() + s_, c); ex.S.written.add(key)
        return True
    def holds(s, ex, p, vals, what):
        for k, v in enumerate(vals):
            if v is not None: s.ens(ex, '%s: component %d' % (what, k), s.cell(ex, p, k) == v)
    def old(s, ex, p): return [s.cell(ex, p, k, ex.S0) for k in range(s.n())]
    def post(s, ex, ret):
        but, vbut = [], []
        for k, (p, kind) in enumerate(zip(s.a, s.args_)):
            if kind in 'od':
                if not s.name.endswith('dtor'): s.alive_(ex, p, lambda f: s.ens(ex, 'argument %d: every component is alive' % k, f))
                if k in s.changes:
                    vbut += [a for _, a in s.es(p)]
                if kind == 'd' or s.name.endswith('dtor'): but += [a for _, a in s.es(p)]
                if k not in s.changes: s.holds(ex, p, s.old(ex, p), 'operand %d unchanged' % k)
            if kind in 'eE':
                if k in s.changes: vbut += [p]
        s.spec(ex, ret)
        s.same_life(ex, but, but + vbut)
    changes = (0,)

def contracts(u):
    C = {}
    # clang names the tail-padding-free layout of a base class X.base: the same object
    T = u.mod.types; al = {}
    for n in T:
        m = re.match(r'(.*)\.base(\.\d+)?$', n)
        if m:
            c = [x for x in T if x != n and re.match(re.escape(m.group(1)) + r'(\.\d+)?$', x) and T[x].fs and len(T[x].fs) == len(T[n].fs) + 1 and [repr(f) for f in T[x].fs[:-1]] == [repr(f) for f in T[n].fs]]
            if len(c) == 1: al[n] = c[0]
    u.canon = lambda k: (al.get(k[0], k[0]), k[1])
    for f, k in list(u.fields.items()):
        if k: u.fields[f] = u.canon(k); u.rsort[u.canon(k)] = u.rsort[k]
    def add(P, n, args, spec, changes=(0,), pre=None):
        c = type(P + '_' + n, (TS,), dict(P=P, args_=args, spec=spec, changes=changes))(P + '_' + n, u); C[P + '_' + n] = c
        if pre: c.pre = lambda ex: pre(c, ex)
        return c
    def copy(s, ex, ret): s.holds(ex, s.a[0], s.old(ex, s.a[1]), 'copied'); r0(s, ex, ret)
    def r0(s, ex, ret):
        if isinstance(ret, Ptr): s.ens(ex, 'returns the object', ret.addr() == s.a[0])
    def selfa(s, ex, ret): s.holds(ex, s.a[0], s.old(ex, s.a[0]), 'unchanged'); r0(s, ex, ret)
    def dt(s, ex, ret):
        for k, a in s.es(s.a[0]): s.ens(ex, 'component %d is destroyed' % k, Not(s.lv(ex, a)))
    for P in LAY:
        add(P, 'copy', 'do', copy); add(P, 'copy_nc', 'do', copy); add(P, 'move', 'do', copy, (0, 1)); add(P, 'assign', 'oo', copy); add(P, 'assign_self', 'o', selfa); add(P, 'massign', 'oo', copy, (0, 1)); add(P, 'dtor', 'o', dt)
    def val(s, ex, k):
        kind, x = s.args_[k], s.a[k]
        if kind == 'e': return s.vl(ex, x, ex.S0)
        if kind == 'p': return Select(ex.mem(R32, I, ex.S0), x)
        if kind == 'P': return Select(ex.mem(('raw', 'i64'), I, ex.S0), x)
        return x
    def ctor(s, ex, ret):
        v = [val(s, ex, k) for k in range(1, len(s.args_))]; s.holds(ex, s.a[0], v, 'constructed')
        for k in range(len(v), s.n()): s.ens(ex, 'missing components are default', s.cell(ex, s.a[0], k) == 0)
        for k in range(1, len(s.args_)):
            if s.args_[k] == 'e' and k not in s.changes: s.ens(ex, 'argument unchanged', s.vl(ex, s.a[k]) == s.vl(ex, s.a[k], ex.S0))
    add('t4', 'ctor', 'deiei', ctor); add('t4', 'ctor_nc', 'depeP', ctor, pre=lambda c, ex: ex.mem(('raw', 'i64'), I)); add('t4', 'ctor_rv', 'deiei', ctor, (0, 1, 3)); add('t4', 'ctor_x', 'diiei', ctor)
    add('t1', 'ctor', 'de', ctor); add('t1', 'ctor_rv', 'de', ctor, (0, 1)); add('p2', 'ctor', 'dei', ctor); add('p2', 'ctor_rv', 'dei', ctor, (0, 1)); add('p3', 'ctor', 'dee', ctor); add('p3', 'ctor_rv', 'dee', ctor, (0, 1, 2))
    add('ae', 'items', 'deee', ctor); add('ae', 'items2', 'dee', ctor); add('ai', 'items', 'diiiii', ctor); add('ai', 'items3', 'diii', ctor); add('ae', 'default', 'd', ctor); add('ai', 'default', 'd', ctor)
    def from_(s, ex, ret):
        q = s.a[1]; s.holds(ex, s.a[0], [s.vl(ex, q + 8 * k, ex.S0) if s.P == 'ae' else Select(ex.mem(R32, I, ex.S0), q + 4 * k) for k in range(s.n())], 'copied from the buffer')
    add('ae', 'from', 'dE', from_); add('ai', 'from', 'dI', from_); add('ai', 'make', 'dI', from_)
    def addr(k):
        def f(s, ex, ret):
            p = s.a[0]; L = LAY[s.P]
            x = s.eaddr(p, k) if L[k] == 'e' else p + s.unit.fields['%s.i%d' % (ST[s.P], k)][1] + s.unit.delta['%s.i%d' % (ST[s.P], k)]
            s.ens(ex, 'refers to component %d' % k, ret.addr() == x)
        return f
    for k in range(4):
        add('t4', 'get%d' % k, 'o', addr(k), ()); add('t4', 'cget%d' % k, 'o', addr(k), ())
        if k != 2: add('t4', 'type%d' % k, 'o', addr(k), ()); add('t4', 'ctype%d' % k, 'o', addr(k), ())
    for n in ('get0', 'cget0', 'type0'): add('t1', n, 'o', addr(0), ())
    for P in ('p2', 'p3'):
        add(P, 'key', 'o', addr(0), ()); add(P, 'val', 'o', addr(1), ()); add(P, 'cval', 'o', addr(1), ())
        H = 1 << 31; REL = dict(eq=lambda c: c == 0, ne=lambda c: c != 0, lt=lambda c: c >= H, gt=lambda c: And(c > 0, c < H), le=lambda c: Or(c == 0, c >= H), ge=lambda c: c < H)
        for r, f in REL.items(): add(P, r, 'oo', (lambda f: lambda s, ex, ret: s.ens(ex, 'the comparison of the keys', (ret if is_bool(ret) else ret != 0) == f(s.cmpres(s.cell(ex, s.a[0], 0), s.cell(ex, s.a[1], 0)))))(f), ())
        add(P, 'find', 'oo', lambda s, ex, ret: s.ens(ex, 'the comparison of the keys', ret == s.cmpres(s.cell(ex, s.a[0], 0), s.cell(ex, s.a[1], 0))), ())
        add(P, 'findk', 'oe', lambda s, ex, ret: s.ens(ex, 'the comparison of the key', ret == s.cmpres(s.cell(ex, s.a[0], 0), s.vl(ex, s.a[1]))), ())
        add(P, 'kfind', 'eo', lambda s, ex, ret: s.ens(ex, 'the comparison of the key', ret == s.cmpres(s.vl(ex, s.a[0]), s.cell(ex, s.a[1], 0))), ())
    cnt = lambda s, ex, ret: s.ens(ex, 'the number of components', ret == s.n())
    for n in ('count', 'length', 'size'): add('t4', n, 'o', cnt, ())
    for P in ('t1', 'ae', 'ai'): add(P, 'count', 'o', cnt, ())
    at = lambda s, ex, ret: s.ens(ex, 'refers to the item at the index', ret.addr() == s.a[0] + (8 if s.P == 'ae' else 4) * s.a[1])
    first = lambda s, ex, ret: s.ens(ex, 'refers to the first item', ret.addr() == s.a[0])
    inr = lambda c, ex: ex.assume(And(c.a[1] >= 0, c.a[1] < c.n()))
    for P in ('ae', 'ai'):
        add(P, 'at', 'oi', at, (), inr); add(P, 'cat', 'oi', at, (), inr); add(P, 'ptr', 'o', first, ()); add(P, 'cptr', 'o', first, ())
    add('ai', 'put', 'oii', lambda s, ex, ret: s.holds(ex, s.a[0], [If(s.a[1] == k, s.a[2], v) for k, v in enumerate(s.old(ex, s.a[0]))], 'only the item at the index is written'), (0,), inr)
    return C
