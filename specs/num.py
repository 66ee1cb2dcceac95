"""Contracts for generic/generic_platform_math.h, decided in bit-vector semantics (every machine input of every width)."""
from speclib import *
UNIT = 'num.cpp'
KEEP = (r'GenericPlatformMath::pow<',)
W = {'int8': (8, 1), 'uint8': (8, 0), 'int16': (16, 1), 'uint16': (16, 0), 'int32': (32, 1), 'uint32': (32, 0), 'int64': (64, 1), 'uint64': (64, 0)}
def ext(v, sg, n=80): return SignExt(n - v.size(), v) if sg else ZeroExt(n - v.size(), v)
CT = {'unsigned long long': 'uint64', 'unsigned long': 'uint64', 'unsigned int': 'uint32', 'int': 'int32', 'long long': 'int64', 'long': 'int64', 'unsigned char': 'uint8', 'unsigned short': 'uint16', 'short': 'int16', 'signed char': 'int8', 'char': 'int8'}

class Num(Spec):
    ops = 'bv'
    def __init__(s, n, u, T, U=None): super().__init__(n, u); s.T = T; s.w, s.sg = W.get(T, (32, 1)); s.U = U
    def valid(s, ex, p, key, idx, size, how): return None
    def lt(s, a, b): return a < b if s.sg else ULT(a, b)

class Abs(Num):
    def __init__(s, *a): super().__init__(*a); s.check_nsw = s.w >= 32
    def setup(s, ex):
        s.v = ex.args[0]
        if s.sg: ex.assume(s.v != BitVecVal(1 << (s.w - 1), s.w))
    def post(s, ex, r):
        r = r if r.size() == s.w else Extract(s.w - 1, 0, r)
        s.ens(ex, 'result is not negative', Not(s.lt(r, BitVecVal(0, s.w))))
        x, y = ext(r, s.sg), ext(s.v, s.sg)
        s.ens(ex, 'result is the magnitude of the argument', Or(x == y, x == -y))

class MinMax(Num):
    mx = False
    def post(s, ex, r):
        a = ex.args
        le = (lambda x, y: Not(s.lt(x, y))) if s.mx else (lambda x, y: Not(s.lt(y, x)))
        s.ens(ex, 'result is one of the arguments', Or(*[r == x for x in a]))
        for i, x in enumerate(a): s.ens(ex, 'result is not beyond argument %d' % i, le(r, x))

class Log2(Num):
    """floor(log2 n), 0 for n = 0; signed arguments must not be negative"""
    def setup(s, ex):
        if s.sg: ex.assume(ex.args[0] >= 0)
    def post(s, ex, r):
        n = ext(ex.args[0], 0, 80); k = ext(r, 0, 80)
        s.ens(ex, 'log2(0) is 0', Implies(n == 0, k == 0))
        s.ens(ex, '2^result <= n', Implies(n != 0, And(ULT(k, 64), UGE(n, BitVecVal(1, 80) << k))))
        s.ens(ex, 'n < 2^(result+1)', Implies(n != 0, ULT(n, BitVecVal(1, 80) << (k + 1))))

class Align(Num):
    up = False
    def setup(s, ex):
        s.n, s.a = ex.args
        ex.assume(And(s.a != 0, s.a & (s.a - 1) == 0))
        # the alignment is representable in T
        ex.assume(ULT(ext(s.a, 0), BitVecVal(1 << (s.w - s.sg), 80)))
        if s.sg: ex.assume(s.n >= 0)
        if s.up: # the next multiple is representable in T
            ex.assume(ULT(ext(s.n, 0) + ext(s.a, 0), BitVecVal(1 << (s.w - s.sg), 80)))
    def post(s, ex, r):
        n, a, k = ext(s.n, 0), ext(s.a, 0), ext(r, 0)
        s.ens(ex, 'result is a multiple of the alignment', k & (a - 1) == 0)
        if s.up:
            s.ens(ex, 'result is greater than n', UGT(k, n)); s.ens(ex, 'result is the closest such multiple', ULE(k - n, a))
        else:
            s.ens(ex, 'result is not greater than n', ULE(k, n)); s.ens(ex, 'result is the closest such multiple', ULT(n - k, a))

class Pow(Num):
    """POW(x, 0) = 1, POW(x, y+1) = POW(x, y) * x (mod 2^w).  The contract of the recursive call is used at y/2;
    the addition law POW(x, a+b) = POW(x, a) * POW(x, b) is the lemma proved by induction in lemma_pow()."""
    mul_uf = True
    def setup(s, ex):
        if s.name.startswith('pow_'):
            s.x, s.y = ex.args
        else:
            for a in ex.args: ex.assume(a.addr() > 0)
            s.x = ex.load(ex.args[0], ir_int(s.w), None); s.y = ex.load(ex.args[1], ir_int(s.uw), None)
        if s.usg: ex.assume(s.y >= 0)
        s.P = Function('POW', BitVecSort(s.w), BitVecSort(80), BitVecSort(s.w))
        Y = ext(s.y, 0); h = LShR(Y, 1); x = s.x
        ex.assume(s.P(x, BitVecVal(0, 80)) == 1)
        # addition law at h + h and h + h + 1 (lemma)
        ph = s.P(x, h)
        mul = lambda a, b: vc.bvmul_uf(a, b)
        ex.assume(Implies(And(Y != 0, Extract(0, 0, Y) == 0), s.P(x, Y) == mul(ph, ph)))
        ex.assume(Implies(Extract(0, 0, Y) == 1, s.P(x, Y) == mul(mul(ph, ph), x)))
        ex.assume(mul(mul(ph, ph), x) == mul(mul(ph, x), ph))   # associativity and commutativity of machine multiplication
        ex.assume(mul(x, BitVecVal(1, s.w)) == x)
    def callee(s, ex, dem, name):
        if 'GenericPlatformMath::pow<' in dem:
            def c(ex, args, ins):
                uw = W[CT[re.search(r'pow<([^,>]*), ([^,>]*)>', dem).group(2)]][0]
                x = ex.load(args[0], ir_int(s.w), None); y = ex.load(args[1], ir_int(uw), None)
                if s.usg: ex.oblige('the exponent of the recursive call is not negative', y >= 0, 'precondition')
                if not s.name.startswith('pow_'):
                    ex.oblige('the exponent of the recursive call is smaller (termination)', ULT(ext(y, 0), ext(s.y, 0)), 'termination')
                return s.P(x, ext(y, 0))
            return c
        return super().callee(ex, dem, name)
    def post(s, ex, r):
        s.ens(ex, 'result is x multiplied by itself y times', r == s.P(s.x, ext(s.y, 0)))
def ir_int(n):
    import ir; return ir.IntT(n)

class Lemma(Spec):
    """the addition law, by induction on b, over an arbitrary associative multiplication with unit"""
    def setup(s, ex): pass
    def post(s, ex, r):
        D = DeclareSort('Mon'); mul = Function('mul', D, D, D); one = Const('one', D); P = Function('P', I, D); x = Const('x', D); a, b = Ints('a b')
        # instances of associativity, unit and the defining equation of POW that the step needs (all universally true)
        ex.assume(mul(mul(P(a), P(b)), x) == mul(P(a), mul(P(b), x)))
        ex.assume(mul(P(a), one) == P(a)); ex.assume(P(0) == one)
        for k in (a + b, b): ex.assume(Implies(k >= 0, P(k + 1) == mul(P(k), x)))
        ex.assume(And(a >= 0, b >= 0))
        ex.oblige('lemma base: POW(a+0) = POW(a) * POW(0)', P(a + 0) == mul(P(a), P(0)), 'lemma')
        ex.oblige('lemma step: POW(a+b) = POW(a)*POW(b) implies POW(a+(b+1)) = POW(a)*POW(b+1)', Implies(P(a + b) == mul(P(a), P(b)), P(a + (b + 1)) == mul(P(a), P(b + 1))), 'lemma')

class FloatId(Spec):
    """float helpers are exactly the C library function / comparison they name (floats uninterpreted)"""
    def __init__(s, n, u, want): super().__init__(n, u); s.want = want
    def post(s, ex, r): s.ens(ex, 'result', r == s.want(ex, *ex.args))
    def callee(s, ex, dem, name):
        if re.match(r'^(sinf|cosf|tanf|asinf|acosf|atanf|powf|sqrtf|fabsf)$', name):
            def c(ex, args, ins):
                k = FSORT['float']; return Function('libm_' + name, *([k] * (len(args) + 1)))(*args)
            return c
        return super().callee(ex, dem, name)

def contracts(u):
    C = {}
    for T in W:
        for op in ('min', 'max', 'min3', 'max3', 'min4', 'max4'):
            n = '%s_%s' % (op, T); C[n] = MinMax(n, u, T); C[n].mx = op.startswith('max')
        C['log2_' + T] = Log2('log2_' + T, u, T)
        C['alignDown_' + T] = Align('alignDown_' + T, u, T)
        C['alignUp_' + T] = Align('alignUp_' + T, u, T); C['alignUp_' + T].up = True
    for T in ('int8', 'int16', 'int32', 'int64', 'uint32', 'uint64'): C['abs_' + T] = Abs('abs_' + T, u, T)
    for n in u.mod.funcs:
        m = re.match(r'pow_(\w+)_(\w+)$', n)
        if m:
            c = C[n] = Pow(n, u, m.group(1)); c.uw, c.usg = W[m.group(2)]
        d = u.dem(n)
        if 'GenericPlatformMath::pow<' in d:
            t = re.search(r'pow<([^,>]*), ([^,>]*)>', d).groups()
            c = C[n] = Pow(n, u, CT[t[0]]); c.uw, c.usg = W[CT[t[1]]]
    k = FSORT['float']; F1 = lambda f: (lambda ex, a: Function(f, k, k)(a))
    C['abs_float32'] = FloatId('abs_float32', u, F1('fabs_float'))
    C['sqrt_float32'] = FloatId('sqrt_float32', u, F1('libm_sqrtf'))
    for f in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan'): C['trig_' + f] = FloatId('trig_' + f, u, F1('libm_%sf' % f))
    C['powf_float32'] = FloatId('powf_float32', u, lambda ex, a, b: Function('libm_powf', k, k, k)(a, b))
    olt = Function('fcmp_olt_float', k, k, BoolSort())
    C['min_float32'] = FloatId('min_float32', u, lambda ex, a, b: If(olt(a, b), a, b))
    C['max_float32'] = FloatId('max_float32', u, lambda ex, a, b: If(olt(b, a), a, b))
    # the lemma is checked once, attached to a function so that it is part of the run
    base = C['trig_sin']
    class WithLemma(FloatId):
        def post(s, ex, r): FloatId.post(s, ex, r); Lemma.post(s, ex, r)
    C['trig_sin'] = WithLemma('trig_sin', u, base.want)
    return C
