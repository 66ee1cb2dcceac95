"""Contracts for math/vec2.h, vec3.h, vec4.h, quat.h, mat4.h, simd_float.h (and the constants of math.cpp).

Floating-point numbers are real numbers (rounding is left out), division is multiplication by an uninterpreted inverse, square root and
the trigonometric functions are uninterpreted.  32-bit integers are bit-vectors.  The operands lie at fixed disjoint addresses (or are the
same object, in the _self/_own forms): the code only reaches them through its pointers.  The memory is one flat array of 4-byte cells."""
from speclib import *
UNIT = 'vec.cpp'
KEEP = ()
R = RealSort(); B64 = BitVecSort(64); B32 = BitVecSort(32)
SQRT, SIN, COS, ACOS = [Function(n, R, R) for n in ('SQRT', 'SIN', 'COS', 'ACOS')]
ADDR = [0x1000, 0x2000, 0x3000, 0x4000]
OP = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}
CMP = {'eq': lambda x, y: x == y, 'ne': lambda x, y: x != y, 'lt': lambda x, y: x < y, 'gt': lambda x, y: x > y, 'le': lambda x, y: x <= y, 'ge': lambda x, y: x >= y}
def bits(b, n): return Concat(*[If(x, BitVecVal(1, 1), BitVecVal(0, 1)) for x in reversed(b)]) if len(b) > 1 else b[0]
class VS(Spec):
    ops = 'bv'; real = True; unroll = True
    tgt = None          # index of the pointer argument that is written; None: nothing is
    def __init__(s, fn, u, T='f', **k):
        super().__init__(fn, u); s.T = T
        for a, b in k.items(): setattr(s, a, b)
    cells = 4           # cells of each object
    def setup(s, ex):
        s.cs = R if s.T == 'f' else B32; ex.S.mem['cells'] = Array('cells', B64, s.cs); s.base = {}
        k = 0
        for i, (t, n) in enumerate(ex.f.params):
            if isinstance(t, PtrT):
                p = Ptr(BitVecVal(ADDR[k], 64)); ex.args[i] = p; ex.S.regs[n] = p; s.base[i] = ADDR[k]; k += 1
        s.pre(ex)
    def pre(s, ex): pass
    def region(s, ex, p, ty): return ('flat', 'cells'), simplify(p.addr())
    def size_of(s, i): return 4 * (s.cells[i] if isinstance(s.cells, (list, tuple)) else s.cells)
    def valid(s, ex, p, key, idx, size, how):
        if is_bv_value(idx) and idx.as_signed_long() < 0: return None
        return Or(*[And(UGE(idx, b), ULE(idx, b + s.size_of(i) - size)) for i, b in s.base.items()])
    def cell(s, ex, a, S=None):
        a = simplify(a) if not isinstance(a, int) else BitVecVal(a & ((1 << 64) - 1), 64)
        return ex.select_simp((S or ex.S).mem['cells'], a)
    def load_hook(s, ex, p, key, a, ty):
        if (isinstance(ty, FloatT) and s.T == 'f') or (isinstance(ty, IntT) and ty.n == 32 and s.T == 'i'): return s.cell(ex, a)
        if isinstance(ty, IntT) and ty.n == 64 and s.T == 'i': return Concat(s.cell(ex, a + 4), s.cell(ex, a))
        raise Unsupported('access of type %r' % ty)
    def put(s, ex, a, v): ex.S.mem['cells'] = Store(ex.S.mem['cells'], simplify(a), v)
    def store_hook(s, ex, p, key, a, v, ty):
        if (isinstance(ty, FloatT) and s.T == 'f') or (isinstance(ty, IntT) and ty.n == 32 and s.T == 'i'): s.put(ex, a, v); return True
        if isinstance(ty, IntT) and ty.n == 64 and s.T == 'i': s.put(ex, a, simplify(Extract(31, 0, v))); s.put(ex, a + 4, simplify(Extract(63, 32, v))); return True
        raise Unsupported('access of type %r' % ty)
    def memmove(s, ex, d, q, n):
        n = n.as_long() if is_bv_value(n) else None
        if n is None or n % 4: raise Unsupported('copy of part of a component')
        for k in range(0, n, 4):
            for x in (d, q): s.chk(ex, x.addr() + k)
        if ex.const_global_addr(q): vs = [ex.const_global(Ptr(q.base, q.off + k), FloatT('float')) for k in range(0, n, 4)]
        else: vs = [s.cell(ex, q.addr() + k) for k in range(0, n, 4)]
        if any(v is None for v in vs): raise Unsupported('constant')
        for k, v in enumerate(vs): s.put(ex, d.addr() + 4 * k, v)
        return True
    def memset(s, ex, d, v, n):
        if not (is_bv_value(v) and v.as_long() == 0 and is_bv_value(n) and n.as_long() % 4 == 0): raise Unsupported('memset')
        for k in range(0, n.as_long(), 4): s.chk(ex, d.addr() + k); s.put(ex, d.addr() + k, RealVal(0) if s.T == 'f' else BitVecVal(0, 32))
        return True
    def chk(s, ex, a):
        a = simplify(a)
        if is_bv_value(a) and a.as_signed_long() < 0: return
        ex.oblige('copied cells lie in the operands', s.valid(ex, None, None, a, 4, ''), 'memory')
    def callee(s, ex, dem, name):
        f = {'sqrtf': SQRT, 'sinf': SIN, 'cosf': COS, 'acosf': ACOS, 'sqrt': SQRT, 'sin': SIN, 'cos': COS, 'acos': ACOS}.get(name)
        if f is not None: return lambda ex, a, ins: f(norm(a[0]))
        return super().callee(ex, dem, name)
    # values
    def vec(s, ex, i, n, S=None): return [s.cell(ex, s.base[i] + 4 * k, S) for k in range(n)]
    def old(s, ex, i, n): return s.vec(ex, i, n, ex.S0)
    def div(s, x, y):
        if s.T == 'f': return vc.real_bin('fdiv', x, y)
        return x / y        # truncating (bit-vectors)
    def op(s, o, x, y): return s.div(x, y) if o == 'div' else OP[o](x, y)
    def eq(s, a, b):
        f = simplify(a - b, som=True) if s.T == 'f' else None
        if f is not None and is_rational_value(f): return BoolVal(f.as_fraction() == 0)
        if f is not None: return f == 0
        return a == b
    def result(s, ex, i, want, what, n=None):
        got = s.vec(ex, i, len(want))
        for k, (g, w) in enumerate(zip(got, want)): s.ens(ex, '%s: component %d' % (what, k), s.eq(g, w))
        # everything else is unchanged
        for j, b in s.base.items():
            for k in range(s.size_of(j) // 4):
                if j == i and k < len(want): continue
                a = s.cell(ex, b + 4 * k); o = s.cell(ex, b + 4 * k, ex.S0)
                if not a.eq(o): s.ens(ex, 'frame: operand %d component %d unchanged' % (j, k), a == o)
    def pure(s, ex): s.result(ex, -1, [], '')
    def nz(s, ex, ds):
        if s.T == 'i':
            for d in ds: ex.assume(d != 0)

class Comp(VS):
    """component-wise operation; a, b: 'v'ector argument index, 's'calar argument index, 'x': first component of the target, numbers refer to arguments"""
    def operands(s, ex):
        n = s.n; out = []
        for k, i in (s.a, s.b):
            if k == 'v': out.append(s.old(ex, i, n))
            elif k == 's': out.append([ex.args[i]] * n)
            else: out.append([s.cell(ex, s.base[i], ex.S0)] * n)
        return out
    def pre(s, ex):
        s.S0 = ex.S0 = ex.S.clone() if not hasattr(ex, 'S0') else ex.S.clone(); s.A, s.Bv = s.operands(ex)
        if s.o == 'div': s.nz(ex, s.Bv)
    def post(s, ex, ret):
        s.result(ex, 0, [s.op(s.o, x, y) for x, y in zip(s.A, s.Bv)], 'component-wise ' + s.o)
        if isinstance(ret, Ptr): s.ens(ex, 'returns the vector itself', ret.addr() == s.base[0])
class Fun(VS):
    """the target's components (or the returned value) as a function of the operands"""
    def post(s, ex, ret):
        w = s.f(s, ex)
        if s.tgt is None:
            s.ens(ex, s.what, s.eq(ret, w) if is_arith(ret) else simplify(ret) == w); s.pure(ex)
        else:
            s.result(ex, s.tgt, w, s.what)
            if isinstance(ret, Ptr): s.ens(ex, 'returns the object itself', ret.addr() == s.base[s.tgt])
class Idx(VS):
    """i-th component read or written, for every valid index"""
    def pre(s, ex):
        a = ex.args; s.ix = [x for x in a[1:1 + s.ni]]
        if s.ni == 2: ex.assume(And(*[ULT(i, 4) for i in s.ix])); s.k = ZeroExt(32, s.ix[0]) * 4 + ZeroExt(32, s.ix[1])
        else: ex.assume(ULT(s.ix[0], s.n)); s.k = ZeroExt(32, s.ix[0])
        s.k = simplify(s.k)
    def post(s, ex, ret):
        at = lambda k, S=None: Select((S or ex.S).mem['cells'], BitVecVal(s.base[0], 64) + 4 * k)
        if s.wr: s.ens(ex, 'the component at that index is set', at(s.k) == ex.args[-1])
        else: s.ens(ex, 'the component at that index', ret == at(s.k, ex.S0))
        for j in range(s.n):
            c = BitVecVal(j, 64); s.ens(ex, 'frame: component %d' % j, Or(And(BoolVal(s.wr), s.k == j), at(c) == at(c, ex.S0)))
class Rot(VS):
    """rotation by a unit quaternion"""
    def post(s, ex, ret):
        x, y, z, w = q = s.old(ex, 1, 4)
        sv = list(ex.S.pc); ex.assume(x * x + y * y + z * z + w * w == 1)
        vs = s.dirs if s.dirs else [s.old(ex, 2, 3)]
        for k, v in enumerate(vs):
            want = rot(q, v); got = s.vec(ex, 0, 3 * len(vs))[3 * k:3 * k + 3]
            for c in range(3): s.unit_eq(ex, 'vector %d rotated: component %d' % (k, c), got[c], want[c], q)
        ex.S.pc = sv
        for j, b in s.base.items():
            if j == 0: continue
            for k in range(s.size_of(j) // 4):
                s.ens(ex, 'frame: operand %d component %d unchanged' % (j, k), s.cell(ex, b + 4 * k) == s.cell(ex, b + 4 * k, ex.S0))
    def unit_eq(s, ex, name, g, w, q):
        # equality modulo x^2 + y^2 + z^2 + w^2 = 1: w^2 is replaced in the difference
        d = reduce_w2(simplify(g - w, som=True), q)
        s.ens(ex, name, d == 0 if d is not None else g == w)
def reduce_w2(e, q):
    """normal form of a polynomial modulo w^2 = 1 - x^2 - y^2 - z^2; None when it is not a polynomial over single terms"""
    import sympy
    names = {}; syms = []
    def tr(t):
        if is_rational_value(t): f = t.as_fraction(); return sympy.Rational(f.numerator, f.denominator)
        k = t.decl().kind()
        if k == Z3_OP_ADD: return sum(tr(c) for c in t.children())
        if k == Z3_OP_MUL:
            r = 1
            for c in t.children(): r = r * tr(c)
            return r
        if k == Z3_OP_SUB:
            r = tr(t.arg(0))
            for c in t.children()[1:]: r -= tr(c)
            return r
        if k == Z3_OP_UMINUS: return -tr(t.arg(0))
        if k == Z3_OP_POWER: return tr(t.arg(0)) ** tr(t.arg(1))
        n = t.get_id()
        if n not in names: names[n] = (sympy.Symbol('t%d' % len(names)), t)
        return names[n][0]
    p = tr(e); sy = [tr(c) for c in q]; x, y, z, w = sy
    r = sympy.reduced(sympy.expand(p), [w**2 + x**2 + y**2 + z**2 - 1], w, x, y, z, *[v for v, _ in names.values() if v not in sy], order='lex')[1] if p != 0 else sympy.Integer(0)
    r = sympy.expand(r)
    if r == 0: return RealVal(0)
    # back to z3
    back = {v: t for v, t in names.values()}
    def un(t):
        if t.is_Rational: return RealVal('%d/%d' % (t.p, t.q))
        if t.is_Symbol: return back[t]
        if t.is_Add: return Sum(*[un(a) for a in t.args])
        if t.is_Mul: return Product(*[un(a) for a in t.args])
        if t.is_Pow:
            return Product(*[un(t.args[0])] * int(t.args[1]))
        raise Unsupported('polynomial')
    return un(r)
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def qmul(p, q):
    x, y, z, w = p; a, b, c, d = q
    return [w * a + x * d + y * c - z * b, w * b - x * c + y * d + z * a, w * c + x * b - y * a + z * d, w * d - x * a - y * b - z * c]
def rot(q, v):
    """vector part of q v q* """
    return qmul(qmul(q, list(v) + [RealVal(0)]), [-q[0], -q[1], -q[2], q[3]])[:3]
def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]): r = r + x * y
    return r
class Cmp(VS):
    def post(s, ex, ret):
        a, b = s.old(ex, 0, s.n), s.old(ex, 1, s.n); r = [CMP[s.c](x, y) for x, y in zip(a, b)]
        if s.mask:
            for k, x in enumerate(r): s.ens(ex, 'bit %d tells about component %d' % (k, k), (Extract(k, k, ret) == 1) == x)
            s.ens(ex, 'no other bit is set', Extract(31, s.n, ret) == 0)
        else: s.ens(ex, 'true exactly when it holds for all components', ret == And(*r))
        s.pure(ex)
class QInv(VS):
    def post(s, ex, ret):
        x, y, z, w = s.old(ex, 1, 4); g = s.vec(ex, 0, 4); c = [-x, -y, -z, w]
        # both the conjugate and its negative describe the inverse rotation
        s.ens(ex, 'the inverse rotation (conjugate up to sign)', Or(And(*[s.eq(p, q) for p, q in zip(g, c)]), And(*[s.eq(p, -q) for p, q in zip(g, c)])))
class QAA(VS):
    """angle and axis read back: angle = 2 acos(w), axis = (x, y, z) / sin(acos(w))"""
    def post(s, ex, ret):
        x, y, z, w = s.old(ex, 2, 4); t = ACOS(norm(w))
        s.ens(ex, 'rotation angle', s.eq(s.cell(ex, s.base[0]), 2 * t))
        for k, c in enumerate((x, y, z)): s.ens(ex, 'rotation axis: component %d' % k, s.eq(s.cell(ex, s.base[1] + 4 * k), s.div(c, SIN(t))))
class MCmp(VS):
    def post(s, ex, ret):
        a, b = s.old(ex, 0, 16), s.old(ex, 1, 16)
        if s.c == 'cmp':
            for k in range(16): s.ens(ex, 'bit %d tells about element %d' % (15 - k, k), (Extract(15 - k, 15 - k, ret) == 1) == (a[k] == b[k]))
        else: s.ens(ex, 'all elements are equal' if s.c == 'eq' else 'some element differs', ret == (And if s.c == 'eq' else (lambda *x: Not(And(*x))))(*[x == y for x, y in zip(a, b)]))
        s.pure(ex)

def contracts(u):
    C = {}
    def add(fn, cls, **k): C[fn] = cls(fn, u, **k)
    for T in 'fi':
        one = RealVal(1) if T == 'f' else BitVecVal(1, 32); zero = RealVal(0) if T == 'f' else BitVecVal(0, 32)
        for n in (2, 3, 4):
            P = 'v%d%s_' % (n, T); k = dict(T=T, n=n, cells=n)
            add(P + 'ctor0', Fun, what='zero vector', f=lambda s, ex: [zero0(s.T)] * s.n, tgt=0, **k)
            add(P + 'ctors', Fun, what='every component is the scalar', f=lambda s, ex: [ex.args[1]] * s.n, tgt=0, **k)
            add(P + 'ctor', Fun, what='the components given', f=lambda s, ex: ex.args[1:], tgt=0, **k)
            add(P + 'at', Idx, ni=1, wr=False, **k); add(P + 'put', Idx, ni=1, wr=True, **k)
            add(P + 'sq', Fun, what='sum of the squares', f=lambda s, ex: dot(*[s.old(ex, 0, s.n)] * 2), **k)
            add(P + 'neg', Fun, what='component-wise negation', f=lambda s, ex: [-x for x in s.old(ex, 1, s.n)], tgt=0, **k)
            add(P + 'dot', Fun, what='sum of the products', f=lambda s, ex: dot(s.old(ex, 0, s.n), s.old(ex, 1, s.n)), **k)
            for o in ('add', 'sub', 'mul', 'div'):
                for f, a, b in (('eq', ('v', 0), ('v', 1)), ('eq_self', ('v', 0), ('v', 0)), ('eqs', ('v', 0), ('s', 1)), ('eqs_own', ('v', 0), ('x', 0)),
                                ('', ('v', 1), ('v', 2)), ('vs', ('v', 1), ('s', 2)), ('sv', ('s', 1), ('v', 2))): add(P + o + f, Comp, o=o, a=a, b=b, **k)
            for c in CMP: add(P + 'cmp' + c, Cmp, c=c, mask=True, **k); add(P + 'op' + c, Cmp, c=c, mask=False, **k)
        add('v3%s_from2' % T, Fun, T=T, n=3, cells=[3, 2], what='first components of the shorter vector', f=lambda s, ex: s.old(ex, 1, 2) + [ex.args[2]], tgt=0)
        add('v4%s_from3' % T, Fun, T=T, n=4, cells=[4, 3], what='first components of the shorter vector, then zero', f=lambda s, ex: s.old(ex, 1, 3) + [zero0(s.T)], tgt=0)
        add('v4%s_from3w' % T, Fun, T=T, n=4, cells=[4, 3], what='first components of the shorter vector', f=lambda s, ex: s.old(ex, 1, 3) + [ex.args[2]], tgt=0)
        add('v4%s_to3' % T, Fun, T=T, n=4, cells=[3, 4], what='first three components', f=lambda s, ex: s.old(ex, 1, 3), tgt=0)
        add('v3%s_cross' % T, Fun, T=T, n=3, cells=3, what='cross product', f=lambda s, ex: cross(s.old(ex, 1, 3), s.old(ex, 2, 3)), tgt=0)
        M = 'm%s_' % T; k = dict(T=T, n=16, cells=16)
        add(M + 'ctors', Fun, what='every element is the scalar', f=lambda s, ex: s.old(ex, 1, 1) * 16, tgt=0, **k)
        add(M + 'ctor2', Fun, what='the values given, then zero', f=lambda s, ex: s.old(ex, 1, 2) + [zero0(s.T)] * 14, tgt=0, **k)
        add(M + 'ctor16', Fun, what='the values given', f=lambda s, ex: s.old(ex, 1, 16), tgt=0, **k)
        add(M + 'ctorp', Fun, what='the values given', f=lambda s, ex: s.old(ex, 1, 16), tgt=0, **k)
        for f, ni, wr in (('row', 2, 0), ('at2', 2, 0), ('at1', 1, 0), ('data', 1, 0), ('rowput', 2, 1), ('put2', 2, 1), ('put1', 1, 1), ('dataput', 1, 1)): add(M + f, Idx, ni=ni, wr=bool(wr), **k)
        for c in ('cmp', 'eq', 'ne'): add(M + c, MCmp, c=c, **k)
        add(M + 'transpose', Fun, what='transposition', f=lambda s, ex: [s.old(ex, 0, 16)[4 * j + i] for i in range(4) for j in range(4)], tgt=0, **k)
    for n in (2, 3, 4):
        P = 'v%df_' % n; k = dict(n=n, cells=n); size = lambda s, ex, i: SQRT(norm(dot(*[s.old(ex, i, s.n)] * 2)))
        add(P + 'size', Fun, what='square root of the sum of the squares', f=lambda s, ex: size(s, ex, 0), **k)
        add(P + 'normalize', Fun, what='divided by the size', f=lambda s, ex: [s.div(x, size(s, ex, 0)) for x in s.old(ex, 0, s.n)], tgt=0, **k)
        add(P + 'normal', Fun, what='divided by the size', f=lambda s, ex: [s.div(x, size(s, ex, 1)) for x in s.old(ex, 1, s.n)], tgt=0, **k)
    add('v2f_cross', Fun, n=3, cells=[3, 2, 2], what='cross product', f=lambda s, ex: cross(s.old(ex, 1, 2) + [RealVal(0)], s.old(ex, 2, 2) + [RealVal(0)]), tgt=0)
    add('q_ctor', Fun, what='the identity rotation', f=lambda s, ex: [RealVal(0)] * 3 + [RealVal(1)], tgt=0)
    add('q_angle_axis', Fun, cells=[4, 0, 3], what='(axis sin(angle/2), cos(angle/2))', f=lambda s, ex: [x * SIN(half(ex.args[1])) for x in s.old(ex, 2, 3)] + [COS(half(ex.args[1]))], tgt=0)
    add('q_rotvec', Fun, n=3, cells=[4, 3], what='(v/|v| sin(|v|/2), cos(|v|/2))', f=lambda s, ex: (lambda a: [s.div(x * SIN(half(a)), a) for x in s.old(ex, 1, 3)] + [COS(half(a))])(size(s, ex, 1)), tgt=0)
    add('q_get_aa', QAA, cells=[1, 3, 4]); add('q_get_angle', Fun, what='2 acos(w)', f=lambda s, ex: 2 * ACOS(norm(s.old(ex, 0, 4)[3])))
    add('q_inv', QInv)
    add('q_mul', Fun, what='Hamilton product', f=lambda s, ex: qmul(s.old(ex, 1, 4), s.old(ex, 2, 4)), tgt=0)
    add('q_mul_self', Fun, what='Hamilton product', f=lambda s, ex: qmul(*[s.old(ex, 1, 4)] * 2), tgt=0)
    add('q_rot', Rot, cells=[3, 4, 3], dirs=None)
    Z = RealVal(0); D = dict(right=[1, 0, 0], left=[-1, 0, 0], up=[0, 1, 0], down=[0, -1, 0], forward=[0, 0, 1], backward=[0, 0, -1])
    for d, v in D.items(): add('q_' + d, Rot, cells=[3, 4], dirs=[[RealVal(x) for x in v]])
    add('q_axes', Rot, cells=[9, 4], dirs=[[RealVal(x) for x in D[d]] for d in ('right', 'up', 'forward')])
    add('c_zero', Fun, n=3, cells=3, what='zero vector', f=lambda s, ex: [Z] * 3, tgt=0); add('c_unit', Fun, n=3, cells=3, what='all ones', f=lambda s, ex: [RealVal(1)] * 3, tgt=0)
    for o in ('add', 'sub', 'mul', 'div'): add('s_' + o, Comp, o=o, a=('v', 1), b=('v', 2), n=4)
    add('s_splat', Fun, what='every lane is the scalar', f=lambda s, ex: [ex.args[1]] * 4, tgt=0)
    return C
def norm(x): return simplify(x, som=True)
def half(x): return norm(x * RealVal('1/2'))
def zero0(T): return RealVal(0) if T == 'f' else BitVecVal(0, 32)
