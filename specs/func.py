"""Contracts for templates/function.h.

Ghost state of the heap: `vt` (dynamic type of an owned object: its vtable), `live`/`val` (functor objects and their values), `alive`
(blocks).  The functor of the owned object h is at A(h) = h + OFF(vt[h]).  Invariant of a wrapper: empty (no callable), or its heap
pointer is a live owned object, whose functor is alive, and its callable is CALLER(vt[h]).
Wrappers use the owned object only through the interface contract (getAddress, clone, destroy, destructor) and the contract of
CALLER(kind): call the functor once with the referenced arguments.  Each concrete kind is then verified against these contracts: every
constructor installs a vtable whose slots - read off the vtable in the module - are functions proved to meet the interface contract."""
from speclib import *
from ir import IntT, CGlobal
UNIT = 'func.cpp'
OFF = Function('OFF', I, I); CALLER = Function('CALLER', I, I); OBJ = Function('OBJ', I, I)
RES = Function('RES', I, I, I, I); NEXT = Function('NEXT', I, I, I, I)      # result and next state of functor value v called with (a, b)
OUT = Function('OUT', I, I, I); NEXT1 = Function('NEXT1', I, I, I)          # for void(int &): value written to the argument
VTOFF = 16
class FS(Life, Spec):
    W = 'F'; args_ = 'o'; types = ''
    def setup(s, ex):
        s.heap(ex); s.life(ex); ex.setg('vt', Const('vt0', AI)); s.objects = []; s.a = []; g = ex.S.ghost
        ex.S.x['calls'] = ()
        ex.assume(forall(['h'], lambda h: OFF(h) >= 8, lambda h: [OFF(h)])); ex.assume(forall(['b'], lambda b: Implies(s.alive(ex, b), b > 0), lambda b: [s.alive(ex, b)]))
        for k, kind in enumerate(s.args_):
            if kind in 'od':
                p = s.argp(ex, k, s.W)
                for q in s.objects: ex.assume(Or(p + 16 <= q, q + 16 <= p))
                s.a.append(p); s.objects.append(p)
                if kind == 'o': ex.assume(s.inv(ex, p))
            elif kind == 'e':
                p = s.argp(ex, k); s.a.append(p); ex.assume(s.lv(ex, p))
                for q in s.objects: ex.assume(Or(p + 16 <= q, q + 16 <= p))
            elif kind == 'l':
                p = s.argp(ex, k, 'Lam'); s.a.append(p); s.objects.append(p)
                ex.assume(Or(p + 8 <= s.a[0], s.a[0] + 16 <= p))
            else: s.a.append(ex.args[k])
        ho = [p for p, k in zip(s.a, s.args_) if k == 'o']
        for i, p in enumerate(ho):
            for q in ho[:i]: ex.assume(Or(s.emp(ex, p), s.emp(ex, q), And(s.h(ex, p) != s.h(ex, q), s.A(ex, s.h(ex, p)) != s.A(ex, s.h(ex, q)))))
        s.kinds(ex)
        s.pre(ex)
    def pre(s, ex): pass
    def kinds(s, ex):
        for k in s.unit.kinds.values(): ex.assume(And(OFF(s.vtaddr(ex, k['vt'])) == 8, CALLER(s.vtaddr(ex, k['vt'])) == ex.global_ptr(k['caller']).addr()))
    def vtaddr(s, ex, n): return ex.global_ptr(n).addr() + VTOFF
    def c(s, ex, p, S=None): return s.rd(ex, s.W + '.callable', p, S)
    def h(s, ex, p, S=None): return s.rd(ex, s.W + '.heap', p, S)
    def emp(s, ex, p, S=None): return s.c(ex, p, S) == 0
    def A(s, ex, h, S=None): return h + OFF(Select((S or ex.S).ghost['vt'], h))
    def V(s, ex, h, S=None): return s.vl(ex, s.A(ex, h, S), S)
    def own(s, ex, h, S=None): return And(h > 0, s.alive(ex, h, S), s.lv(ex, s.A(ex, h, S), S))
    def inv(s, ex, p, S=None):
        h = s.h(ex, p, S); return Or(s.emp(ex, p, S), And(s.own(ex, h, S), s.c(ex, p, S) == CALLER(Select((S or ex.S).ghost['vt'], h)), s.c(ex, p, S) != 0))
    def valid(s, ex, p, key, idx, size, how):
        if key == ('raw', 'vtable'): return Or(idx < 0, s.alive(ex, idx))
        if key[0] == 'raw' and any(k == 'r' for k in s.args_): return None if how is None else Or(idx < 0, *[idx == x.addr() for x, k in zip(s.a, s.args_) if k == 'r'])
        return Or(idx < 0, *[And(o <= idx, idx < o + 16) for o in s.objects] + [And(l[1] <= idx, idx < l[1] + l[2]) for l in ex.S.log if l[0] == 'alloc'] + [s.alive(ex, idx)])
    def memset(s, ex, d, v, n):
        if is_int_value(simplify(d.addr())) and simplify(d.addr()).as_long() < 0: return True      # a local allocator object: nothing but its vtable pointer
        raise Unsupported('memset')
    def vt_store(s, ex, p, v): ex.setg('vt', Store(ex.S.ghost['vt'], p.addr(), v.addr()))
    def storage_ok(s, ex, a): return Or(a < 0, s.alive(ex, a - 8), *[a == x for x, k in zip(s.a, s.args_) if k == 'd'])
    # ---- the interface contract, as seen by wrappers
    def vcall(s, ex, slot):
        n = {v: k for k, v in s.unit.slots.items()}.get(slot)
        def need(h): ex.oblige('the owned object is alive', s.own(ex, h), 'lifetime')
        def address(ex, a, i):
            h = a[0].addr(); need(h); x = s.A(ex, h); ex.assume(OBJ(x) == h); return Ptr(x)
        def kill(free):
            def f(ex, a, i):
                h = a[0].addr(); need(h); g = ex.S.ghost
                ex.setg('live', Store(g['live'], s.A(ex, h), BoolVal(False)))
                if free: ex.setg('alive', Store(g['alive'], h, BoolVal(False)))
            return f
        def clone(ex, a, i):
            h = a[0].addr(); need(h); g = ex.S.ghost; p = fresh('new', I); k = Select(g['vt'], h); v = s.V(ex, h)
            ex.assume(And(p > 0, Not(s.alive(ex, p)), Not(s.lv(ex, p + OFF(k))), *[Or(p >= o + 16, p + 16 <= o) for o in s.objects]))
            ex.setg('alive', Store(g['alive'], p, BoolVal(True))); ex.setg('vt', Store(g['vt'], p, k))
            ex.setg('live', Store(g['live'], p + OFF(k), BoolVal(True))); ex.setg('val', Store(g['val'], p + OFF(k), v)); return Ptr(p)
        return {'address': address, 'destroy': kill(True), 'clone': clone, 'dtor': kill(False)}.get(n)
    def icall(s, ex, p):
        def f(ex, a, i):
            x = a[0].addr(); ex.oblige('the callable is the caller for the kind of functor that is bound', And(s.lv(ex, x), x == s.A(ex, OBJ(x)), p.addr() == CALLER(Select(ex.S.ghost['vt'], OBJ(x)))), 'precondition')
            return s.apply(ex, x, [ex.load(q, IntT(32 if k == 0 else 64), None) for k, q in enumerate(a[1:])] if s.W == 'F' else a[1:])
        return f
    def apply(s, ex, x, a):
        """the functor at x is called"""
        v = s.vl(ex, x); ex.S.x['calls'] = ex.S.x['calls'] + ((x, v, tuple(a)),); g = ex.S.ghost
        if s.W == 'F':
            ex.setg('val', Store(g['val'], x, NEXT(v, a[0], a[1]))); return RES(v, a[0], a[1])
        q = a[0]; o = ex.load(q, IntT(32), None); ex.store(q, OUT(v, o), IntT(32), None); ex.setg('val', Store(g['val'], x, NEXT1(v, o)))
    def called(s, ex, x, v, args, ret, S=None):
        cs = ex.S.x['calls']; s.ens(ex, 'the functor is called exactly once', BoolVal(len(cs) == 1))
        if len(cs) != 1: return
        y, w, a = cs[0]
        s.ens(ex, 'the functor that is bound is called', And(y == x, w == v))
        if s.W == 'F':
            s.ens(ex, 'with the arguments given', And(*[p == q for p, q in zip(a, args)])); s.ens(ex, 'and its result is returned', ret == RES(v, *args))
        else: s.ens(ex, 'with the very object given', a[0].addr() == args[0])
    # ---- callees
    def callee(s, ex, dem, name):
        if dem.startswith('MallocAnsi::alloc('): return s.ansi_alloc
        if dem.startswith('MallocAnsi::free('): return s.malloc_free
        m = re.match(r'(Elem|Act)::(.*)', dem)
        if m and m.group(2).startswith('operator()'): return lambda ex, a, i: s.apply(ex, a[0].addr(), a[1:])
        if m: return s.elem_callee(ex, 'Elem::' + m.group(2).replace('Act', 'Elem'), name)
        return super().callee(ex, dem, name)
    def ansi_alloc(s, ex, args, ins):
        p = s.malloc_alloc(ex, args, ins); a = p.addr()
        ex.assume(forall(['q'], lambda q: Implies(And(a <= q, q < a + args[1]), Not(s.lv(ex, q))), lambda q: [s.lv(ex, q)]))      # nothing lives in fresh memory
        for o in s.objects: ex.assume(Or(a >= o + 16, a + args[1] <= o))
        for x, k in zip(s.a, s.args_):
            if k == 'e': ex.assume(Or(a >= x + 8, a + args[1] <= x))
        return p
    # ---- postconditions
    def same_blocks(s, ex, but):
        g, g0 = ex.S.ghost, ex.S0.ghost
        s.ens(ex, 'frame: no other block is allocated or released (no leak)', forall(['b'], lambda b: Implies(And(*[b != x for x in but]), Select(g['alive'], b) == Select(g0['alive'], b)), lambda b: [Select(g['alive'], b)]))
        s.ens(ex, 'frame: other owned objects keep their kind', forall(['b'], lambda b: Implies(And(Select(g0['alive'], b), *[b != x for x in but]), Select(g['vt'], b) == Select(g0['vt'], b)), lambda b: [Select(g['vt'], b)]))
    def frame(s, ex, hs, S0hs=(), more=()):
        """only the owned objects hs (now) and S0hs (before) may differ"""
        s.same_blocks(ex, list(hs) + list(S0hs))
        s.same_life(ex, [s.A(ex, h) for h in hs] + [s.A(ex, h, ex.S0) for h in S0hs] + list(more))
    def fields(s, ex, p): s.ens(ex, 'wrapper unchanged', And(s.c(ex, p) == s.c(ex, p, ex.S0), s.h(ex, p) == s.h(ex, p, ex.S0)))
    def post(s, ex, ret):
        for k, (p, kind) in enumerate(zip(s.a, s.args_)):
            if kind in 'od' and not s.name.endswith('dtor'): s.ens(ex, 'argument %d: empty, or bound to a live functor with its caller' % k, s.inv(ex, p))
            if kind == 'e': s.ens(ex, 'the functor given stays alive', s.lv(ex, p))
        s.spec(ex, ret)
def is_copy(s, ex, p, q):
    S0 = ex.S0; h, h0 = s.h(ex, p), s.h(ex, q, S0)
    s.ens(ex, 'a copy is empty exactly when the source is', s.emp(ex, p) == s.emp(ex, q, S0))
    s.ens(ex, 'a copy holds the same kind of functor with the same value', Or(s.emp(ex, p), And(s.c(ex, p) == s.c(ex, q, S0), Select(ex.S.ghost['vt'], h) == Select(S0.ghost['vt'], h0), s.V(ex, h) == s.V(ex, h0, S0))))
    s.ens(ex, 'a copy owns its functor alone', Or(s.emp(ex, p), h != s.h(ex, q)))
def newobj(s, ex, p): return If(s.emp(ex, p), IntVal(0), s.h(ex, p))
def oldobj(s, ex, p): return If(s.emp(ex, p, ex.S0), IntVal(0), s.h(ex, p, ex.S0))
def fr(s, ex, new=(), old=(), more=()):
    S0 = ex.S0; g = ex.S.ghost
    al = [newobj(s, ex, p) for p in new] + [oldobj(s, ex, p) for p in old]
    s.same_blocks(ex, al)
    s.same_life(ex, [If(s.emp(ex, p), IntVal(-1), s.A(ex, s.h(ex, p))) for p in new] + [If(s.emp(ex, p, S0), IntVal(-1), s.A(ex, s.h(ex, p, S0), S0)) for p in old] + list(more), )
def taken(s, ex, p, q):
    """p holds what q held, the owned object itself"""
    S0 = ex.S0; h = s.h(ex, p)
    s.ens(ex, 'moved exactly when the source was bound', s.emp(ex, p) == s.emp(ex, q, S0))
    s.ens(ex, 'the functor itself is handed over unchanged', Or(s.emp(ex, p), And(s.c(ex, p) == s.c(ex, q, S0), h == s.h(ex, q, S0), s.A(ex, h) == s.A(ex, h, S0), s.V(ex, h) == s.V(ex, h, S0))))
def gone(s, ex, p):
    S0 = ex.S0; return Or(s.emp(ex, p, S0), And(Not(s.alive(ex, s.h(ex, p, S0))), Not(s.lv(ex, s.A(ex, s.h(ex, p, S0), S0)))))

class Caller(FS):
    """FunctionCaller<Fn, Ret(Args...)>::call(void *fn, Args &...)"""
    kind = None; objects = ()
    def setup(s, ex):
        s.W = s.kind['W']; s.args_ = ('p', 'r', 'r')[:len(ex.args)]; s.heap(ex); s.life(ex); ex.setg('vt', Const('vt0', AI)); ex.S.x['calls'] = (); s.objects = []
        s.a = list(ex.args); x = ex.args[0].addr(); ex.assume(x > 0); s.x = x
        for q in ex.args[1:]: ex.assume(And(q.addr() > 0, Or(q.addr() + 8 <= x, x + 16 <= q.addr())))
        if len(ex.args) == 3: ex.assume(Or(ex.args[1].addr() + 4 <= ex.args[2].addr(), ex.args[2].addr() + 8 <= ex.args[1].addr()))
        s.vals = [ex.load(q, IntT(32 if k == 0 else 64), None) for k, q in enumerate(ex.args[1:])] if s.W == 'F' else [ex.args[1].addr()]
        if s.kind['life']: ex.assume(s.lv(ex, x)); s.v = s.vl(ex, x)
        else: s.v = ex.load(Ptr(x), s.kind['ty'], None) if s.kind['n'] == 'ptr' else None
    def valid(s, ex, p, key, idx, size, how): return Or(idx < 0, And(s.x <= idx, idx < s.x + 16), *[idx == q.addr() for q in ex.args[1:]])
    def icall(s, ex, p):
        def f(ex, a, i):
            s.ens(ex, 'the pointer that is stored is called', p.addr() == s.v.addr()); ex.S.x['calls'] += ((s.x, s.v.addr(), tuple(a)),); return RES(p.addr(), a[0], a[1])
        return f
    def post(s, ex, ret):
        k = s.kind
        if k['n'] == 'lam':
            r = ex.S0.mem; f = lambda o: Select(ex.mem((s.unit.structs['Lam'], o), I, ex.S0), s.x)
            s.ens(ex, 'the lambda is applied to the arguments', (ret - (f(0) * s.vals[0] + f(4) + s.vals[1])) % (1 << 32) == 0); return
        s.called(ex, s.x, s.v.addr() if isinstance(s.v, Ptr) else s.v, s.vals, ret)
        s.same_life(ex, [], [s.x]); s.same_blocks(ex, [])

class Owned(FS):
    """the functions in the slots of the vtable of FunctionOwnedObject<Fn>, against the interface contract"""
    kind = None; slot = None
    def setup(s, ex):
        s.W = s.kind['W']; s.args_ = ('o',); s.heap(ex); s.life(ex); ex.setg('vt', Const('vt0', AI)); ex.S.x['calls'] = ()
        ex.assume(forall(['h'], lambda h: OFF(h) >= 8, lambda h: [OFF(h)])); ex.assume(forall(['b'], lambda b: Implies(s.alive(ex, b), b > 0), lambda b: [s.alive(ex, b)]))
        s.objects = []; s.kinds(ex); h = ex.args[0].addr(); s.a = [h]; s.hh = h; g = ex.S.ghost
        # `destroy` and the empty destructor are shared by several kinds: verified for any kind
        if s.kind['any']: ex.assume(And(h > 0, s.alive(ex, h), s.lv(ex, s.A(ex, h))))
        else:
            ex.assume(And(h > 0, s.alive(ex, h), Select(g['vt'], h) == s.vtaddr(ex, s.kind['vt'])))
            if s.kind['life']: ex.assume(s.lv(ex, h + 8))
    def valid(s, ex, p, key, idx, size, how): return Or(idx < 0, And(s.hh <= idx, idx < s.hh + 24), And(s.alive(ex, idx)), s.alive(ex, idx - 8))
    def storage_ok(s, ex, a): return s.alive(ex, a - 8)
    def cells(s, ex, h, S):
        k = s.kind
        if k['n'] == 'ptr': return [Select(ex.mem(s.pkey(ex), I, S), h + s.pdel(ex))]
        return [Select(ex.mem((s.unit.structs['Lam'], o), I, S), h + 8) for o in (0, 4)]
    def pkey(s, ex): return s.unit.fields['OP.object']
    def pdel(s, ex): return s.unit.delta.get('OP.object', 0)
    def post(s, ex, ret):
        h, k, S0 = s.hh, s.kind, ex.S0; g = ex.S.ghost
        if s.slot == 'address':
            s.ens(ex, 'the address of the functor', ret.addr() == h + 8); s.same_blocks(ex, []); s.same_life(ex, [])
        elif s.slot == 'clone':
            p = ret.addr()
            s.ens(ex, 'a fresh owned object of the same kind', And(p > 0, Not(s.alive(ex, p, S0)), s.alive(ex, p), Select(g['vt'], p) == Select(S0.ghost['vt'], h)))
            s.ens(ex, 'its block holds the whole object', BoolVal(len([l for l in ex.S.log if l[0] == 'alloc' and l[1].eq(p)]) == 1) if not isinstance(ret, tuple) else BoolVal(False))
            for l in ex.S.log:
                if l[0] == 'alloc': s.ens(ex, 'the block is large enough and aligned', And(l[2] >= 8 + k['size'], l[3] % 8 == 0))
            if k['life']: s.ens(ex, 'with a live copy of the functor', And(s.lv(ex, p + 8), s.vl(ex, p + 8) == s.vl(ex, h + 8, S0), s.lv(ex, h + 8)))
            else: s.ens(ex, 'with a copy of the functor', And(*[x == y for x, y in zip(s.cells(ex, p, ex.S), s.cells(ex, h, S0))]))
            s.same_blocks(ex, [p]); s.same_life(ex, [p + 8])
        elif s.slot == 'destroy':
            s.ens(ex, 'the functor is destroyed and its block released', And(Not(s.lv(ex, s.A(ex, h, S0))), Not(s.alive(ex, h))))
            s.same_blocks(ex, [h]); s.same_life(ex, [s.A(ex, h, S0)])
        elif s.slot == 'dtor':
            if k['life']: s.ens(ex, 'the functor is destroyed', Not(s.lv(ex, h + 8)))
            ga, g0 = ex.S.ghost, ex.S0.ghost
            s.ens(ex, 'frame: no block is allocated or released', ga['alive'] == g0['alive']); s.same_life(ex, [h + 8])

class Bind(FS):
    """construction from a functor: the wrapper owns a copy of it, with the vtable and the caller of its kind"""
    kind = None; args_ = 'de'; moves = False
    def post(s, ex, ret):
        k, S0 = s.kind, ex.S0; g = ex.S.ghost; p = s.a[0]; h = s.h(ex, p)
        s.ens(ex, 'the wrapper owns a fresh owned object', And(h > 0, Not(s.alive(ex, h, S0)), s.alive(ex, h)))
        s.ens(ex, 'its vtable is the one of its kind', Select(g['vt'], h) == s.vtaddr(ex, k['vt']))
        s.ens(ex, 'the callable is the caller of its kind', s.c(ex, p) == ex.global_ptr(k['caller']).addr())
        for l in ex.S.log:
            if l[0] == 'alloc': s.ens(ex, 'the block is large enough and aligned', And(l[2] >= 8 + k['size'], l[3] % 8 == 0))
        if k['life']:
            s.ens(ex, 'the functor bound has the value of the one given', And(s.lv(ex, h + 8), s.vl(ex, h + 8) == s.vl(ex, s.a[1], S0)))
            if not s.moves: s.ens(ex, 'the functor given is unchanged', s.vl(ex, s.a[1]) == s.vl(ex, s.a[1], S0))
        elif k['n'] == 'ptr':
            s.ens(ex, 'the pointer bound is the one given', Select(ex.mem(s.unit.fields['OP.object'], I), h + s.unit.delta.get('OP.object', 0)) == (s.a[1].addr() if len(s.a) > 1 else ex.global_ptr('plain').addr()))
        else: s.ens(ex, 'the captures bound are the ones given', And(*[Select(ex.mem((s.unit.structs['Lam'], o), I), h + 8) == Select(ex.mem((s.unit.structs['Lam'], o), I, S0), s.a[1]) for o in (0, 4)]))
        old = [s.h(ex, p, S0)] if s.args_[0] == 'o' else []
        if old: s.ens(ex, 'the functor bound before is destroyed', gone(s, ex, p))
        fr(s, ex, [p], [p] if old else [], [s.a[1]] if s.moves else [])

def contracts(u):
    C = {}
    u.kinds = {}
    def g(rx):
        r = u.find(rx)
        return r[0] if r else None
    K = [('elem', 'F', r'Elem', True, None, 8), ('act', 'G', r'Act', True, None, 8), ('ptr', 'F', r'int \(\*\)\(int, long long\)', False, None, 8), ('lam', 'F', r'Lam', False, None, 8)]
    vts = {}
    for m in re.finditer(r'^@("[^"]*"|[-\w$.]+) = [^\n]*constant \{ \[\d+ x ptr\] \} \{ \[\d+ x ptr\] \[(.*?)\] \}', u.text, re.M):
        vts[m.group(1).strip('"')] = [re.sub(r'^ptr ', '', x.strip()).strip('@') for x in m.group(2).split(',')]
    import unit as U
    dm = U.demangle(list(vts))
    slots = dict(u.slots); u.slots['dtor'] = 0; slots['dtor'] = 0
    for n, W, rx, life, ty, size in K:
        vt = [v for v in vts if re.match(r'vtable for FunctionOwnedObject<%s>' % rx, dm[v])]
        ca = g(r'^(int |void )?FunctionCaller<%s, .*>::call\(' % rx)
        if len(vt) != 1 or ca is None: raise U.BuildError('kind %s: no vtable or caller' % n)
        u.kinds[n] = dict(n=n, W=W, vt=vt[0], caller=ca, life=life, size=size, any=False, ty=PTR if n == 'ptr' else None)
    def mk(cls, name, **k):
        c = type(cls.__name__ + '_' + name, (cls,), dict(k))(name, u); C[name] = c; return c
    seen = {}
    for n, k in u.kinds.items():
        c = mk(Caller, 'caller_' + n, kind=k); c.fname = k['caller']
        for sl in ('address', 'destroy', 'clone', 'dtor'):
            fn = vts[k['vt']][2 + slots[sl]]
            kk = dict(k)
            if sl == 'destroy': kk['any'] = True
            c = mk(Owned, '%s_%s' % (sl, n), kind=kk, slot=sl); c.fname = fn
            if fn not in u.mod.funcs: raise U.BuildError('vtable slot %s of %s is %s' % (sl, n, fn))
    for W, P in (('F', 'f'), ('G', 'g')):
        def add(n, args, spec): mk(FS, P + '_' + n, W=W, args_=args, spec=spec)
        def dflt(s, ex, ret): s.ens(ex, 'a new wrapper is empty', s.emp(ex, s.a[0])); fr(s, ex)
        def copy(s, ex, ret): is_copy(s, ex, *s.a); s.fields(ex, s.a[1]); fr(s, ex, [s.a[0]])
        def movec(s, ex, ret): taken(s, ex, *s.a); s.ens(ex, 'the source is left empty', s.emp(ex, s.a[1])); fr(s, ex)
        def dtor(s, ex, ret): s.ens(ex, 'the functor is destroyed and its block released', gone(s, ex, s.a[0])); fr(s, ex, [], [s.a[0]])
        def assign(s, ex, ret): is_copy(s, ex, *s.a); s.fields(ex, s.a[1]); s.ens(ex, 'the functor bound before is destroyed', gone(s, ex, s.a[0])); s.ens(ex, 'returns the wrapper', ret.addr() == s.a[0]); fr(s, ex, [s.a[0]], [s.a[0]])
        def assign1(s, ex, ret):
            p = s.a[0]; S0 = ex.S0; h, h0 = s.h(ex, p), s.h(ex, p, S0)
            s.ens(ex, 'still the same functor', And(s.emp(ex, p) == s.emp(ex, p, S0), Or(s.emp(ex, p), And(s.c(ex, p) == s.c(ex, p, S0), s.V(ex, h) == s.V(ex, h0, S0), Select(ex.S.ghost['vt'], h) == Select(S0.ghost['vt'], h0)))))
            s.ens(ex, 'nothing leaks', Or(s.emp(ex, p), h == h0, gone(s, ex, p))); s.ens(ex, 'returns the wrapper', ret.addr() == p); fr(s, ex, [p], [p])
        def massign(s, ex, ret):
            p, q = s.a; S0 = ex.S0; taken(s, ex, p, q); s.ens(ex, 'returns the wrapper', ret.addr() == p)
            s.ens(ex, 'the functor bound before is destroyed, or handed to the source', Or(gone(s, ex, p), And(Not(s.emp(ex, q)), s.h(ex, q) == s.h(ex, p, S0), s.V(ex, s.h(ex, q)) == s.V(ex, s.h(ex, q), S0))))
            s.ens(ex, 'the source does not share the functor', Or(s.emp(ex, p), s.emp(ex, q), s.h(ex, p) != s.h(ex, q))); fr(s, ex, [], [p])
        def boolc(s, ex, ret): s.ens(ex, 'reports whether a functor is bound', (ret != 0 if not is_bool(ret) else ret) == Not(s.emp(ex, s.a[0]))); s.fields(ex, s.a[0]); fr(s, ex)
        add('default', 'd', dflt); add('copy', 'do', copy); add('copy_nc', 'do', copy); add('move', 'do', movec); add('dtor', 'o', dtor); add('assign', 'oo', assign); add('assign_self', 'o', assign1)
        add('massign', 'oo', massign); add('massign_self', 'o', assign1); add('bool', 'o', boolc)
        def call(s, ex, ret):
            p = s.a[0]; h = s.h(ex, p, ex.S0); s.called(ex, s.A(ex, h, ex.S0), s.V(ex, h, ex.S0), [x if not isinstance(x, Ptr) else x.addr() for x in s.a[1:]], ret); s.fields(ex, p)
            s.same_blocks(ex, []); s.same_life(ex, [], [s.A(ex, h, ex.S0)])
        for n in ('call', 'ccall'):
            c = mk(FS, P + '_' + n, W=W, args_='oii' if W == 'F' else 'or', spec=call)
            c.pre = (lambda c: lambda ex: ex.assume(And(Not(c.emp(ex, c.a[0])), *[And(x.addr() > 0, Or(x.addr() + 4 <= c.a[0], c.a[0] + 16 <= x.addr())) for x in c.a[1:] if isinstance(x, Ptr)])))(c)
    k = u.kinds
    mk(Bind, 'f_bind', kind=k['elem']); mk(Bind, 'f_bind_nc', kind=k['elem']); mk(Bind, 'f_bind_rv', kind=k['elem'], moves=True)
    mk(Bind, 'g_bind', kind=k['act'], W='G'); mk(Bind, 'g_bind_rv', kind=k['act'], W='G', moves=True)
    mk(Bind, 'f_set', kind=k['elem'], args_='oe')
    mk(Bind, 'f_plain', kind=k['ptr'], args_='d'); mk(Bind, 'f_ptr', kind=k['ptr'], args_='di'); mk(Bind, 'f_lam', kind=k['lam'], args_='dl')
    return C
