"""Verification-condition generator: symbolic execution of extracted LLVM IR against contracts.

Every function under contract is executed once per feasible path between cut points; loops are cut at
their headers with invariants (Houdini over candidate invariants), calls to other functions under
contract use the callee's contract only.  Obligations are discharged by z3 (cvc5 second)."""
import sys, os, time, subprocess, re
import z3
from z3 import *
import ir
from ir import *

I = IntSort()
z3.set_param('auto_config', False)
z3.set_param('smt.mbqi', False)

_n = [0]
def fresh(name, sort):
    _n[0] += 1
    return Const('%s!%d' % (name, _n[0]), sort)

FSORT0 = {'float': DeclareSort('F32'), 'double': DeclareSort('F64'), 'x86_fp80': DeclareSort('F80'), 'half': DeclareSort('F16')}

class Ptr:
    """base + off; prov = (struct, field offset) when derived by a typed GEP (base = address of that struct)"""
    __slots__ = ('base', 'off', 'prov', 'vt')
    def __init__(s, base, off=0, prov=None, vt=None):
        s.base = base; s.off = off; s.prov = prov; s.vt = vt
    def addr(s):
        return s.base if s.off == 0 else s.base + s.off
    def __repr__(s): return 'Ptr(%s+%d,%s)' % (s.base, s.off, s.prov)

class Stop(Exception):
    pass

class State:
    def __init__(s):
        s.regs = {}; s.mem = {}; s.ghost = {}; s.pc = []; s.log = []; s.written = set(); s.active = {}; s.trace = []
        s.allocas = {}; s.x = {}
    def clone(s):
        n = State()
        n.regs = dict(s.regs); n.mem = dict(s.mem); n.ghost = dict(s.ghost); n.pc = list(s.pc); n.log = list(s.log)
        n.written = set(s.written); n.active = dict(s.active); n.trace = list(s.trace); n.allocas = s.allocas; n.x = dict(s.x)
        return n

def ite(c, a, b):
    if is_true(c): return a
    if is_false(c): return b
    if a is b or a.eq(b): return a
    return If(c, a, b)
def conj(xs):
    xs = [x for x in xs if not is_true(x)]
    return And(*xs) if len(xs) > 1 else (xs[0] if xs else BoolVal(True))

def has_q(f, _c={}):
    k = f.get_id()
    r = _c.get(k)
    if r is not None and r[0].eq(f): return r[1]
    res = False; st = [f]; seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if is_quantifier(t): res = True; break
        st.extend(t.children())
    _c[k] = (f, res)
    return res

MULI = Function('MULI', IntSort(), IntSort(), IntSort())
class _FS(dict):
    real = False
    def __getitem__(s, k): return RealSort() if s.real else FSORT0[k]
FSORT = _FS()
RDIV = Function('inverse', RealSort(), RealSort())
def real_const(t):
    from fractions import Fraction
    import struct as st
    if t.startswith('0x'): v = st.unpack('>d', int(t[2:], 16).to_bytes(8, 'big'))[0]
    else: v = float(t)
    if v != v or v in (float('inf'), float('-inf')): raise Unsupported('float constant ' + t)
    f = Fraction(v); return RealVal('%d/%d' % (f.numerator, f.denominator))
def real_bin(op, a, b):
    """arithmetic on real numbers; division is multiplication by an inverse that is uninterpreted (decided for every divisor)"""
    if op == 'fadd': return a + b
    if op == 'fsub': return a - b
    if op == 'fmul': return a * b
    if op == 'fdiv':
        if is_rational_value(b) and b.as_fraction() != 0: return a / b
        return a * RDIV(simplify(b, som=True))
    raise Unsupported('real ' + op)
class IntOps:
    name = 'int'
    @staticmethod
    def sort(n): return BoolSort() if n == 1 else I
    @staticmethod
    def const(v, n):
        return BoolVal(bool(v & 1)) if n == 1 else IntVal(v % (1 << n))
    @staticmethod
    def rng(v, n):
        if n == 1: return BoolVal(True)
        return And(v >= 0, v < (1 << n))
    def signed(s, ex, v, n):
        h = 1 << (n-1)
        if is_int_value(v):
            k = v.as_long(); return IntVal(k - (1 << n) if k >= h else k)
        return ex.sime(v >= h, v - (1 << n), v)
    def unsigned(s, ex, v, n):
        return ex.sime(v < 0, v + (1 << n), v)
    def bin(s, ex, op, a, b, n, fl):
        M = 1 << n
        if n == 1:
            if op == 'xor': return simplify(Xor(a, b)) if (is_true(a) or is_true(b) or is_false(a) or is_false(b)) else Xor(a, b)
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('add', 'sub'): return Xor(a, b)
            raise Unsupported('i1 ' + op)
        ca = a.as_long() if is_int_value(a) else None
        cb = b.as_long() if is_int_value(b) else None
        if ca is not None and cb is not None:
            sg = lambda x: x - M if x >= M//2 else x
            if op == 'add': return IntVal((ca + cb) % M)
            if op == 'sub': return IntVal((ca - cb) % M)
            if op == 'mul': return IntVal((ca * cb) % M)
            if op == 'and': return IntVal(ca & cb)
            if op == 'or': return IntVal(ca | cb)
            if op == 'xor': return IntVal(ca ^ cb)
            if op == 'shl': return IntVal((ca << cb) % M)
            if op == 'lshr': return IntVal(ca >> cb)
            if op == 'udiv' and cb: return IntVal(ca // cb)
            if op == 'urem' and cb: return IntVal(ca % cb)
        if op == 'add':
            if ca is not None and cb is None: a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                if cb == 0: return a
                if cb >= M//2:
                    k = M - cb
                    return ex.sime(a < k, a + (M - k), a - k)
                return ex.sime(a >= M - cb, a + cb - M, a + cb)
            return ex.sime(a + b >= M, a + b - M, a + b)
        if op == 'sub':
            if cb == 0: return a
            return ex.sime(a < b, a - b + M, a - b)
        if op == 'mul':
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb == 1: return a
            if cb == 0: return IntVal(0)
            if cb is not None and cb >= M//2:  # negative constant
                r = a * (cb - M)
                if ex.entails(a == 0): return IntVal(0)
                return r % M
            if getattr(ex.spec, 'mul_uf', False) and ca is None and cb is None:
                r = MULI(a, b)      # products of unknowns, related by the facts the contract states about them
                return r if ex.entails(And(r >= 0, r < M)) else r % M
            r = a * b
            return r if ex.entails(r < M) else r % M
        if op == 'and':
            if ca is not None: a, b, ca, cb = b, a, cb, ca
            if cb is not None:
                if cb == 0: return IntVal(0)
                if cb & (cb+1) == 0: return a % (cb+1)
                inv = (M-1) ^ cb
                if inv & (inv+1) == 0: return a - a % (inv+1)
            if a.eq(b): return a
            return s.bits(ex, 'and', a, b, n)
        if op == 'or':
            if cb == 0: return a
            if ca == 0: return b
            if cb is not None and cb & (cb+1) == 0: return a - a % (cb+1) + cb
            if cb is not None and cb & (cb-1) == 0:
                return ite((a / IntVal(cb)) % 2 == 1, a, a + cb)
            return s.bits(ex, 'or', a, b, n)
        if op == 'xor':
            if cb == M-1: return (M-1) - a
            if cb is not None and cb & (cb-1) == 0 and cb:
                return ite((a / IntVal(cb)) % 2 == 1, a - cb, a + cb)
            return s.bits(ex, 'xor', a, b, n)
        if op == 'shl':
            if cb is not None:
                r = a * (1 << cb)
                return r if ex.entails(r < M) else r % M
            return s.bits(ex, op, a, b, n)
        if op == 'lshr':
            if cb is not None: return a / IntVal(1 << cb) if cb else a
            return s.bits(ex, op, a, b, n)
        if op == 'ashr':
            if cb is not None:
                sa = s.signed(ex, a, n)
                return s.unsigned(ex, sa / IntVal(1 << cb), n)
            return s.bits(ex, op, a, b, n)
        if op in ('udiv', 'urem'):
            ex.oblige('div-by-zero', b != 0)
            return a / b if op == 'udiv' else a % b
        if op in ('sdiv', 'srem'):
            ex.oblige('div-by-zero', b != 0)
            x = s.signed(ex, a, n); y = s.signed(ex, b, n)
            if ex.entails(And(x >= 0, y > 0)): return x / y if op == 'sdiv' else x % y
            # truncating division
            ax = ite(x < 0, -x, x); ay = ite(y < 0, -y, y)
            q = ax / ay; q = ite((x < 0) != (y < 0), -q, q)
            if op == 'sdiv': return s.unsigned(ex, q, n)
            return s.unsigned(ex, x - q * y, n)
        raise Unsupported('int op ' + op)
    def bits(s, ex, op, a, b, n):
        f = Function('bv_%s_%d' % (op, n), I, I, I)
        r = f(a, b)
        ex.assume(And(r >= 0, r < (1 << n)))
        if op == 'and': ex.assume(And(r <= a, r <= b))
        if op == 'or': ex.assume(And(r >= a, r >= b, r <= a + b))
        if op == 'lshr': ex.assume(r <= a)
        return r
    def cmp(s, ex, p, a, b, n):
        if n == 1:
            if p == 'eq': return a == b
            if p == 'ne': return a != b
            raise Unsupported('i1 cmp')
        if p == 'eq': return a == b
        if p == 'ne': return a != b
        if p[0] == 's':
            a = s.signed(ex, a, n); b = s.signed(ex, b, n)
        k = p[1:]
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k]
    def cast(s, ex, op, v, n, m):
        if op == 'zext':
            if n == 1: return ite(v, IntVal(1), IntVal(0))
            return v
        if op == 'sext':
            if n == 1: return ite(v, IntVal((1 << m) - 1), IntVal(0))
            if is_int_value(v):
                k = v.as_long(); return IntVal((k - (1 << n)) % (1 << m) if k >= 1 << (n-1) else k)
            return ex.sime(v >= (1 << (n-1)), v - (1 << n) + (1 << m), v)
        if op == 'trunc':
            if m == 1:
                if is_int_value(v): return BoolVal(v.as_long() % 2 == 1)
                if v.decl().kind() == Z3_OP_ITE and is_int_value(v.arg(1)) and is_int_value(v.arg(2)):
                    a, b = v.arg(1).as_long() % 2, v.arg(2).as_long() % 2
                    if (a, b) == (1, 0): return v.arg(0)
                    if (a, b) == (0, 1): return Not(v.arg(0))
                if ex.entails(v <= 1): return v == 1
                return v % 2 == 1
            if is_int_value(v): return IntVal(v.as_long() % (1 << m))
            if ex.entails(v < (1 << m)): return v
            return v % (1 << m)
        raise Unsupported(op)
    def toaddr(s, ex, v, n):   # gep index: signed
        return s.signed(ex, v, n)
    psort = I
    def pconst(s, v): return IntVal(v)

def bvmul_uf(a, b):
    # multiplication as an uninterpreted commutative function
    if str(a) > str(b): a, b = b, a
    n = a.size()
    return Function('bvmul_%d' % n, BitVecSort(n), BitVecSort(n), BitVecSort(n))(a, b)
class BVOps:
    name = 'bv'
    psort = BitVecSort(64)
    @staticmethod
    def sort(n): return BoolSort() if n == 1 else BitVecSort(n)
    @staticmethod
    def const(v, n): return BoolVal(bool(v & 1)) if n == 1 else BitVecVal(v, n)
    @staticmethod
    def rng(v, n): return BoolVal(True)
    def bin(s, ex, op, a, b, n, fl):
        if n == 1:
            return {'xor': Xor, 'and': And, 'or': Or, 'add': Xor, 'sub': Xor}[op](a, b)
        if op == 'mul' and getattr(ex.spec, 'mul_uf', False): return bvmul_uf(a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'): ex.oblige('div-by-zero', b != 0)
        if op in ('shl', 'lshr', 'ashr'): ex.oblige('shift-range', ULT(b, n))
        if 'nsw' in fl and op in ('add', 'sub', 'mul') and ex.spec.check_nsw:
            x, y = SignExt(n, a), SignExt(n, b)
            w = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
            ex.oblige('signed-overflow', w == SignExt(n, r))
        if op == 'sdiv' and ex.spec.check_nsw: ex.oblige('signed-overflow', Not(And(a == BitVecVal(1 << (n-1), n), b == BitVecVal(-1, n))))
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: LShR(a, b), 'ashr': lambda: a >> b,
                'udiv': lambda: UDiv(a, b), 'urem': lambda: URem(a, b), 'sdiv': lambda: a / b, 'srem': lambda: SRem(a, b)}[op]()
    def cmp(s, ex, p, a, b, n):
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: ULT(a, b), 'ule': lambda: ULE(a, b), 'ugt': lambda: UGT(a, b),
                'uge': lambda: UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[p]()
    def cast(s, ex, op, v, n, m):
        if n == 1:
            one = BitVecVal(1 if op == 'zext' else -1, m)
            return ite(v, one, BitVecVal(0, m))
        if op == 'zext': return ZeroExt(m - n, v)
        if op == 'sext': return SignExt(m - n, v)
        if op == 'trunc':
            if m == 1: return Extract(0, 0, v) == BitVecVal(1, 1)
            return Extract(m-1, 0, v)
        raise Unsupported(op)
    def toaddr(s, ex, v, n):
        return v if n == 64 else SignExt(64 - n, v)
    def pconst(s, v): return BitVecVal(v, 64)

class Result:
    __slots__ = ('name', 'kind', 'loc', 'ok', 'status', 'time', 'model', 'backend', 'smt', 'desc')
    def __init__(s, **k):
        for a in s.__slots__: setattr(s, a, k.get(a))

class Contract:
    """Specification of one function; subclass or fill the callables."""
    check_nsw = False
    ops = 'int'
    scale = pscale = None     # element-indexed regions / regions holding whole-element pointers (see Exec.region)
    elemsz = ()               # element sizes, largest first
    def __init__(s, name): s.name = name

class Undecided(Exception):
    pass

GLOBAL_STEP = 1 << 20

class Exec:
    def __init__(s, mod, func, spec, unit, timeout=8000, log=None):
        FSORT.real = s.real = bool(getattr(spec, 'real', False))      # floats as real numbers
        s.mod = mod; s.f = func; s.spec = spec; s.unit = unit
        s.ops = BVOps() if spec.ops == 'bv' else IntOps()
        s.timeout = timeout; s.results = []; s.tbaa = unit.tbaa; s.tbmap = unit.tbmap
        # unroll: loops with a constant number of rounds are executed (a condition that is not constant ends in Undecided)
        s.loops = ir.loops(func); s.unrolled = set(); s.nvis = 0
        if getattr(spec, 'unroll', False): s.unrolled = set(s.loops); s.loops = {}
        s.havoc = {h: (set(), set()) for h in s.loops}
        s.dead = {}           # (header, cand name) -> removed
        s.paths = 0; s.qtime = 0; s.nq = 0; s.exits = 0
        s.inc = None; s.incpc = []
        s.final = False
        s.loopidx = {h: i for i, h in enumerate([b for b in func.order if b in s.loops])}
        s.cov = []
        s.max_paths = getattr(spec, 'max_paths', 4000)
        s.t0 = time.time()
        s.budget = getattr(spec, 'budget', 600)
        s.memo = {}
        s.cvc5_ok = 0
        s.globaddr = {}
        s.fails = 0
    # ---- solver helpers
    def inc_sync(s):
        pc = s.S.pc
        if s.inc is None:
            s.inc = Solver(); s.inc.set('timeout', 500); s.incpc = []
        k = 0
        while k < len(s.incpc) and k < len(pc) and s.incpc[k] is pc[k]: k += 1
        if k < len(s.incpc):
            s.inc.pop(len(s.incpc) - k); s.incpc = s.incpc[:k]
        for f in pc[k:]:
            s.inc.push()
            if not has_q(f): s.inc.add(f)
            s.incpc.append(f)
    def feasible(s, extra=None):
        s.inc_sync()
        t = time.time()
        r = s.inc.check(*( [extra] if extra is not None else []))
        s.qtime += time.time() - t
        return r != unsat
    def entails(s, f):
        if is_true(f): return True
        if is_false(f): return False
        f2 = simplify(f)
        if is_true(f2): return True
        if is_false(f2): return False
        key = (tuple(id(x) for x in s.S.pc), f.get_id())
        return not s.feasible(Not(f))
    def sime(s, c, a, b):
        """if-then-else, resolved when the path condition decides it"""
        c2 = simplify(c)
        if is_true(c2): return a
        if is_false(c2): return b
        if not s.feasible(c): return b
        if not s.feasible(Not(c)): return a
        return If(c, a, b)
    def assume(s, f):
        if is_true(f): return
        s.S.pc.append(f)
    def loc(s):
        return s.unit.loc(s.cur.dbg) if getattr(s, 'cur', None) is not None and s.cur.dbg else ''
    def oblige(s, name, goal, kind='safety', then_assume=True):
        """record and discharge one obligation; afterwards it is assumed"""
        if is_true(goal): g = goal
        else: g = goal
        if is_true(simplify(g)) :
            s.record(name, kind, True, 'trivial', 0.0, 'simplifier'); return True
        key = (name, kind, g.get_id(), tuple(x.get_id() for x in s.S.pc))
        if key in s.memo:
            ok, st, dt, be, model = s.memo[key]
        else:
            ok, st, dt, be, model = s.prove(s.S.pc, g)
            s.memo[key] = (ok, st, dt, be, model)
            s.memo.setdefault('keep', []).append((g, list(s.S.pc)))
        s.record(name, kind, ok, st, dt, be, model)
        if then_assume: s.assume(g)
        return ok
    def record(s, name, kind, ok, st, dt, be, model=None):
        if not ok:
            s.fails += 1
            if os.environ.get('KV_TRACE'):
                print('   FAIL %s %s [%s] %s at %s %.2fs path %s' % (s.spec.name, kind, name, st, s.loc(), dt, '>'.join(s.S.trace[-12:])), flush=True)
        s.results.append(Result(name=name, kind=kind, loc=s.loc(), ok=ok, status=st, time=dt, backend=be, model=model))
        if s.fails > getattr(s.spec, 'max_fails', 12) and s.final: raise Undecided('too many failed obligations')
    def proves(s, f):
        """does the path (with its quantified facts) entail f?  used only to choose what to assert, never as evidence"""
        if not s.feasible(Not(f)): return True
        so = SimpleSolver(); so.set('timeout', 2000)
        for h in s.S.pc: so.add(h)
        so.add(Not(f))
        return so.check() == unsat
    def prove(s, hyps, goal, timeout=None):
        timeout = timeout or s.timeout
        t = time.time()
        if hasattr(s.spec, 'prep'):
            # the contract instantiates the quantified facts itself; stages of growing sets of instances
            m = None; r = unknown; st = []
            for hs, g in s.spec.prep(s, hyps, goal):
                st.append((hs, g))
                so = SimpleSolver(); so.set('timeout', timeout if s.final else min(timeout, 3000))
                for h in hs: so.add(h)
                so.add(Not(g)); r = so.check()
                if r == unsat:
                    dt = time.time() - t; s.qtime += dt; s.nq += 1; return True, 'unsat', dt, 'z3', None
            dt = time.time() - t; s.qtime += dt; s.nq += 1
            try: m = s.model_txt(so.model())
            except Exception: pass
            if s.final and r != sat:
                for hs, g in st:
                    so = SimpleSolver(); so.set('timeout', timeout * 2); so.set('random_seed', 7); so.set('smt.arith.solver', 2)
                    for h in hs: so.add(h)
                    so.add(Not(g))
                    if so.check() == unsat: return True, 'unsat', time.time() - t, 'z3', None
                    ok, d3 = s.cvc5(so, timeout)
                    if ok: return True, 'unsat', time.time() - t, 'cvc5', None
            return False, str(r), dt, 'z3', m
        if getattr(s.spec, 'qf_first', False):
            # the quantifier-free facts alone (a subset of the hypotheses) decide some non-linear goals faster
            so = Solver(); so.set('timeout', min(timeout, 3000))
            for h in hyps:
                if not has_q(h): so.add(h)
            so.add(Not(goal))
            if so.check() == unsat:
                dt = time.time() - t; s.qtime += dt; s.nq += 1
                return True, 'unsat', dt, 'z3', None
        so = SimpleSolver(); so.set('timeout', timeout)
        for r, n in getattr(s.spec, 'solver_opts', {}).items(): so.set(r, n)
        for h in hyps: so.add(h)
        so.add(Not(goal))
        r = so.check(); dt = time.time() - t
        s.qtime += dt; s.nq += 1
        if os.environ.get('KV_SLOW') and dt > float(os.environ['KV_SLOW']): print('   SLOW %.1fs %s %s' % (dt, r, str(goal)[:100]))
        if r == unsat: return True, 'unsat', dt, 'z3', None
        st = str(r) if r == sat else 'unknown(%s)' % so.reason_unknown()
        model = None
        try: model = s.model_txt(so.model())
        except Exception: pass
        if s.final and getattr(s.spec, 'retry', True):
            # second attempts: other seed, then cvc5
            if r != sat:
                t = time.time()
                so2 = SimpleSolver(); so2.set('timeout', timeout * 2); so2.set('random_seed', 7); so2.set('smt.arith.solver', 2)
                for h in hyps: so2.add(h)
                so2.add(Not(goal))
                r2 = so2.check(); d2 = time.time() - t; s.qtime += d2
                if r2 == unsat: return True, 'unsat', dt + d2, 'z3', None
                ok, d3 = s.cvc5(so, timeout)
                if ok: return True, 'unsat', dt + d2 + d3, 'cvc5', None
                if not has_q(goal):
                    # the quantifier-free facts alone (a subset of the hypotheses)
                    so3 = Solver(); so3.set('timeout', timeout); t = time.time()
                    for h in hyps:
                        if not has_q(h): so3.add(h)
                    so3.add(Not(goal)); r3 = so3.check(); s.qtime += time.time() - t
                    if r3 == unsat: return True, 'unsat', time.time() - t, 'z3', None
        return False, st, dt, 'z3', model
    def cvc5(s, so, timeout):
        import tempfile
        t = time.time()
        try:
            txt = '(set-logic ALL)\n' + so.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh: fh.write(txt)
            r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, fh.name], capture_output=True, text=True, timeout=timeout/1000 + 10)
            os.unlink(fh.name)
            return r.stdout.strip().startswith('unsat'), time.time() - t
        except Exception:
            return False, time.time() - t
    def model_txt(s, m):
        out = []
        for d in m.decls():
            v = m[d]
            if d.arity() == 0 and (is_int_value(v) or is_bv_value(v) or is_true(v) or is_false(v)):
                nm = d.name()
                if nm.startswith('arg.') or '!' not in nm or len(out) < 60: out.append('%s=%s' % (nm, v))
        return ' '.join(sorted(out)[:80])
    # ---- memory
    def region_sort(s, ty):
        if isinstance(ty, IntT): return I if s.ops.name == 'int' else BitVecSort(max(8, ty.n))
        if isinstance(ty, PtrT): return s.ops.psort
        if isinstance(ty, FloatT): return FSORT[ty.k]
        raise Unsupported('memory access of type %r' % ty)
    def mem(s, key, sort=None, S=None):
        S = S or s.S
        m = S.mem.get(key)
        if m is None:
            if sort is None:
                sort = s.unit.rsort.get(key, I if s.ops.name == 'int' else None)
            m = Const('mem.%s.%s' % key, ArraySort(s.ops.psort, sort))
            s.S0mem.setdefault(key, m)
            m = s.S0mem[key]
            S.mem[key] = m
        return m
    def region(s, p, ty, tb):
        """-> key, index; regions named in the spec's scale are indexed in elements, not bytes"""
        if hasattr(s.spec, 'region'): return s.spec.region(s, p, ty)
        key, idx = s.region0(p, ty, tb)
        sc = s.spec.scale.get(key) if s.spec.scale else None
        return (key, s.exdiv(idx, sc)) if sc else (key, idx)
    def exdiv(s, t, k):
        """exact quotient of an address by the element size; an address that is not a multiple fails an obligation"""
        if k == 1: return t
        r = s.divk(t, k)
        if r is not None: return r
        r = s.divk(simplify(t, som=True), k)
        if r is not None: return r
        s.oblige('the address is that of a whole element', t % k == 0, 'memory')
        return t / k
    def divk(s, t, k):
        if is_int_value(t):
            v = t.as_long(); return IntVal(v // k) if v % k == 0 else None
        d = t.decl().kind()
        if d in (Z3_OP_ADD, Z3_OP_SUB):
            ch = [s.divk(c, k) for c in t.children()]
            if any(c is None for c in ch): return None
            if d == Z3_OP_SUB:
                r = ch[0]
                for c in ch[1:]: r = r - c
                return r
            r = ch[0]
            for c in ch[1:]: r = r + c
            return r
        if d == Z3_OP_UMINUS:
            r = s.divk(t.arg(0), k); return None if r is None else -r
        if d == Z3_OP_MUL:
            ch = t.children()
            for i, c in enumerate(ch):
                if is_int_value(c) and c.as_long() % k == 0:
                    q = c.as_long() // k; rest = ch[:i] + ch[i+1:]
                    r = rest[0]
                    for x in rest[1:]: r = r * x
                    return r if q == 1 else IntVal(q) * r
            return None
        if d == Z3_OP_ITE:
            a, b = s.divk(t.arg(1), k), s.divk(t.arg(2), k)
            return None if a is None or b is None else If(t.arg(0), a, b)
        return None
    def region0(s, p, ty, tb):
        if p.prov:
            return p.prov, p.base
        if tb:
            b, off, acc = tb
            if b is not None and acc != 'vtable pointer':
                st = s.tbmap.get(b, b)
                if off == p.off: return (st, off), p.base
                return (st, off), (p.addr() - off if off else p.addr())
        return ('raw', repr(ty)), p.addr()
    def leaf(s, t, off):
        """innermost (struct, off) holding the scalar at off, and delta of that struct; None when inside arrays"""
        d = 0
        while True:
            if not isinstance(t, StructT): return None
            found = None
            for i, f in enumerate(t.fs or []):
                o = field_off(t, i)
                if o <= off < o + max(1, sizeof(f)): found = (f, o)
            if not found: return None
            f, o = found
            if isinstance(f, StructT): d += o; off -= o; t = f; continue
            if isinstance(f, ArrT): 
                return ('arr', None, d)
            return (t.name, o, d)
    def load(s, p, ty, tbid):
        tb = s.tbaa(tbid) if tbid else None
        if p.vt and p.vt[0] == 'slot' and isinstance(ty, PtrT):
            return Ptr(fresh('fn', s.ops.psort), vt=('fn', p.vt[1], p.vt[2]))
        if tb and tb[2] == 'vtable pointer':
            s.valid(p, ('raw', 'vtable'), p.addr(), 8, 'load')
            return Ptr(fresh('vtab', s.ops.psort), vt=('vtab', p))
        if isinstance(ty, StructT):
            return tuple(s.load(s.gep_field(p, ty, i), f, None) for i, f in enumerate(ty.fs))
        if isinstance(ty, (ArrT, VecT)):
            return tuple(s.load(Ptr(p.base, p.off + i * sizeof(ty.e)), ty.e, None) for i in range(ty.n))
        g = s.const_global(p, ty)
        if g is not None: return g
        key, idx = s.region(p, ty, tb)
        s.valid(p, key, idx, sizeof(ty), 'load')
        sv = s.spec.load_hook(s, p, key, idx, ty) if hasattr(s.spec, 'load_hook') else None
        if sv is not None: return sv
        m = s.mem(key, s.region_sort(ty))
        if m.sort().range() != s.region_sort(ty): raise Unsupported('type-punned access to %s' % (key,))
        v = Select(m, idx)
        if z3.is_app_of(m, Z3_OP_STORE):
            v2 = s.select_simp(m, idx)
            if v2 is not None: v = v2
        return s.wrapval(v, ty, key)
    def select_simp(s, m, idx):
        k = 0
        while z3.is_app_of(m, Z3_OP_STORE) and k < 60:
            j = m.arg(1)
            if j.eq(idx): return m.arg(2)
            d = simplify(j - idx) if s.ops.name == 'int' else simplify(j == idx)
            if s.ops.name == 'int':
                if is_int_value(d):
                    if d.as_long() == 0: return m.arg(2)
                    m = m.arg(0); k += 1; continue
                if s.feasible(j == idx):
                    if not s.feasible(j != idx): return m.arg(2)
                    return Select(m, idx)
                m = m.arg(0); k += 1; continue
            if is_true(d): return m.arg(2)
            if is_false(d) or not s.feasible(d): m = m.arg(0); k += 1; continue
            if not s.feasible(Not(d)): return m.arg(2)
            return Select(m, idx)
        return Select(m, idx)
    def wrapval(s, v, ty, key=None):
        if isinstance(ty, PtrT):
            pt = s.unit.ptr_types.get(key) if key else None
            if key and s.spec.pscale and key in s.spec.pscale: return Ptr(IntVal(s.spec.pscale[key]) * v)
            return s.typed(v, pt)
        if isinstance(ty, IntT):
            if s.ops.name == 'int':
                if ty.n == 1: return v == 1
                if not is_int_value(v):
                    s.assume(s.ops.rng(v, ty.n))
            elif ty.n == 1: return Extract(0, 0, v) == 1
        return v
    def typed(s, v, struct):
        """pointer value whose pointee is (the first leaf of) the named LLVM struct"""
        if struct is None: return Ptr(v)
        if struct.startswith('raw'): return Ptr(v)
        t = s.mod.types.get(struct)
        if t is None: return Ptr(v)
        lf = s.leaf(t, 0)
        if lf is None or lf[0] == 'arr': return Ptr(v)
        return Ptr(v, 0, (lf[0], lf[1]))
    def unwrap(s, v, ty):
        if isinstance(v, Ptr): return v.addr()
        if isinstance(ty, IntT) and ty.n == 1:
            return ite(v, s.ops.const(1, 8), s.ops.const(0, 8))
        return v
    def store(s, p, v, ty, tbid):
        if isinstance(ty, (StructT, ArrT, VecT)):
            if isinstance(ty, StructT):
                for i, f in enumerate(ty.fs): s.store(s.gep_field(p, ty, i), v[i] if v is not None else None, f, None)
            else:
                for i in range(ty.n): s.store(Ptr(p.base, p.off + i * sizeof(ty.e)), v[i], ty.e, None)
            return
        tb = s.tbaa(tbid) if tbid else None
        if tb and tb[2] == 'vtable pointer':
            s.valid(p, ('raw', 'vtable'), p.addr(), 8, 'store')
            if hasattr(s.spec, 'vt_store'): s.spec.vt_store(s, p, v)
            return
        key, idx = s.region(p, ty, tb)
        s.valid(p, key, idx, sizeof(ty), 'store')
        if hasattr(s.spec, 'store_hook') and s.spec.store_hook(s, p, key, idx, v, ty): return
        m = s.mem(key, s.region_sort(ty))
        if m.sort().range() != s.region_sort(ty): raise Unsupported('type-punned access to %s' % (key,))
        u = s.unwrap(v, ty)
        if s.spec.pscale and key in s.spec.pscale: u = s.exdiv(u, s.spec.pscale[key])
        s.S.mem[key] = Store(m, idx, u)
        s.S.written.add(key)
    def valid(s, p, key, idx, size, how):
        if s.const_global_addr(p): return
        if is_int_value(idx) and idx.as_long() < 0: return
        f = s.spec.valid(s, p, key, idx, size, how) if hasattr(s.spec, 'valid') else None
        if f is not None: s.oblige('%s of %s is to a live object' % (how, s.unit.kname(key)), f, 'memory')
    def gep_field(s, p, st, i):
        o = field_off(st, i); f = st.fs[i]
        lf = s.leaf(st, o)
        base = p.addr()
        if lf is None or lf[0] == 'arr': return Ptr(p.base, p.off + o)
        d = lf[2]
        return Ptr(base if d == 0 else base + d, lf[1], (lf[0], lf[1]))
    def gep(s, p, t, idxs):
        """idxs: list of (ty, value)"""
        if p.vt and p.vt[0] == 'vtab':
            k = idxs[0][1]
            kk = k.as_long() if is_int_value(k) or is_bv_value(k) else None
            if kk is None: raise Unsupported('vtable index')
            return Ptr(p.base, vt=('slot', p.vt[1], kk))
        ty, v = idxs[0]
        sz = sizeof(t)
        iv = s.ops.toaddr(s, v, ty.n)
        if is_bv(iv): iv = simplify(iv)
        cur = p
        if is_int_value(iv):
            if iv.as_long() * sz: cur = Ptr(p.base, p.off + iv.as_long() * sz)
        elif is_bv_value(iv):
            if iv.as_signed_long() * sz: cur = Ptr(p.base, p.off + iv.as_signed_long() * sz)
        else:
            cur = Ptr(p.addr() + (iv * sz if sz != 1 else iv))
        for (ty, v) in idxs[1:]:
            if isinstance(t, StructT):
                k = v.as_long()
                cur = s.gep_field(cur, t, k); t = t.fs[k]
            elif isinstance(t, (ArrT, VecT)):
                sz = sizeof(t.e); iv = s.ops.toaddr(s, v, ty.n)
                if is_bv(iv): iv = simplify(iv)
                a = cur
                if is_int_value(iv) or is_bv_value(iv):
                    kk = iv.as_long()
                    cur = Ptr(a.base, a.off + kk * sz)
                else: cur = Ptr(a.addr() + iv * sz)
                t = t.e
                if isinstance(t, StructT):
                    pass
            else: raise Unsupported('gep')
        if len(idxs) == 1 and isinstance(t, StructT):
            return cur if cur is not p else p
        return cur
    # ---- constants
    def global_ptr(s, n):
        if n not in s.unit.globids: s.unit.globids[n] = len(s.unit.globids) + 1
        return Ptr(s.ops.pconst(-GLOBAL_STEP * s.unit.globids[n]))
    def const_global_addr(s, p):
        b = p.base
        if is_int_value(b) or is_bv_value(b):
            v = b.as_long() if is_int_value(b) else b.as_signed_long()
            return v < 0
        return False
    def const_global(s, p, ty):
        b = p.base
        if not (is_int_value(b) or is_bv_value(b)): return None
        v = b.as_long() if is_int_value(b) else b.as_signed_long()
        if v >= 0 or v % GLOBAL_STEP: return None
        gid = -v // GLOBAL_STEP
        for n, k in s.unit.globids.items():
            if k == gid:
                g = s.mod.globals.get(n)
                if not g or not g[2] or g[1] is None: return None
                r = s.const_at(g[0], g[1], p.off, ty)
                return r
        return None
    def const_at(s, t, c, off, want):
        if isinstance(c, CStr):
            if off < len(c.b) and isinstance(want, IntT) and want.n == 8: return s.ops.const(c.b[off], 8)
            return None
        if isinstance(t, StructT) and isinstance(c, (CAgg, CZero)):
            for i, f in enumerate(t.fs):
                o = field_off(t, i)
                if o <= off < o + sizeof(f):
                    return s.const_at(f, c.elts[i][1] if isinstance(c, CAgg) else c, off - o, want)
            return None
        if isinstance(t, ArrT) and isinstance(c, (CAgg, CZero)):
            es = sizeof(t.e); i = off // es
            if 0 <= i < t.n: return s.const_at(t.e, c.elts[i][1] if isinstance(c, CAgg) else c, off - i * es, want)
            return None
        if off == 0 and sizeof(t) == sizeof(want):
            return s.operand(c, want)
        return None
    def vidx(s, k):
        k = simplify(k) if not isinstance(k, int) else k
        if not (is_int_value(k) or is_bv_value(k)): raise Unsupported('vector element at a computed index')
        return k.as_long()
    def operand(s, o, ty):
        if isinstance(o, Const_): return o.v
        if isinstance(o, Reg):
            v = s.S.regs.get(o.n)
            if v is None and o.n not in s.S.regs: raise Unsupported('undefined register %' + o.n)
            return v
        if isinstance(o, CInt):
            return s.ops.const(o.v, ty.n)
        if isinstance(o, CNull): return Ptr(s.ops.pconst(0))
        if isinstance(o, CUndef):
            return s.freshval(ty, 'undef')
        if isinstance(o, CZero):
            return s.zero(ty)
        if isinstance(o, CFloat):
            if s.real: return real_const(o.t)
            return Const('fc_%s_%s' % (ty.k, o.t), FSORT[ty.k])
        if isinstance(o, CGlobal):
            return s.global_ptr(o.n)
        if isinstance(o, CAgg):
            return tuple(s.operand(v, t) for t, v in o.elts)
        if isinstance(o, CExpr):
            if o.op == 'gep':
                p = s.operand(o.args[0][1], PTR)
                return s.gep(p, o.ty, [(t, s.operand(v, t)) for t, v in o.args[1:]])
            if o.op == 'ptrtoint':
                return s.operand(o.args[0][1], PTR).addr()
            if o.op == 'inttoptr':
                return Ptr(s.operand(o.args[0][1], o.args[0][0]))
        raise Unsupported('operand %r' % o)
    def zero(s, ty):
        if isinstance(ty, IntT): return s.ops.const(0, ty.n)
        if isinstance(ty, PtrT): return Ptr(s.ops.pconst(0))
        if isinstance(ty, StructT): return tuple(s.zero(f) for f in ty.fs)
        if isinstance(ty, ArrT): return tuple(s.zero(ty.e) for _ in range(ty.n))
        if isinstance(ty, FloatT): return RealVal(0) if s.real else Const('fc_%s_0.000000e+00' % ty.k, FSORT[ty.k])
        if isinstance(ty, VecT): return tuple(s.zero(ty.e) for _ in range(ty.n))
        raise Unsupported('zero')
    def freshval(s, ty, nm='v'):
        if isinstance(ty, IntT):
            v = fresh(nm, s.ops.sort(ty.n)); s.assume(s.ops.rng(v, ty.n)); return v
        if isinstance(ty, PtrT): return Ptr(fresh(nm, s.ops.psort))
        if isinstance(ty, FloatT): return fresh(nm, FSORT[ty.k])
        if isinstance(ty, StructT): return tuple(s.freshval(f, nm) for f in ty.fs)
        if isinstance(ty, (ArrT, VecT)): return tuple(s.freshval(ty.e, nm) for _ in range(ty.n))
        if isinstance(ty, VoidT): return None
        raise Unsupported('fresh %r' % ty)
    # ---- ghost
    def setg(s, k, v): s.S.ghost[k] = v
    def havoc_region(s, key):
        m = s.mem(key)
        s.S.mem[key] = fresh('mem.%s.%s' % key, m.sort()); s.S.written.add(key)
    # ---- run
    def run(s):
        """explore, iterating Houdini and havoc-set discovery to a fixpoint"""
        rounds = 0
        while True:
            rounds += 1
            s.results = []; s.changed = False; s.exits = 0; s.paths = 0; s.inc = None; s.incpc = []; s.cov = []; s.fails = 0
            s.final = not s.loops
            s.explore()
            if not s.changed: break
            if rounds > 60: raise Undecided('invariant inference did not stabilise')
        if s.loops:
            # discovery uses a short timeout; final pass full
            s.results = []; s.exits = 0; s.paths = 0; s.inc = None; s.incpc = []; s.final = True; s.cov = []; s.fails = 0
            s.explore()
        s.rounds = rounds
        return s.results
    def explore(s):
        _n[0] = 0
        S = State(); s.S = S; s.S0mem = {}
        s.cur = None
        s.S.allocas = {}
        s.nalloca = 0; s.scaledphi = {}
        for t, n in s.f.params:
            if isinstance(t, PtrT): S.regs[n] = Ptr(Const('arg.' + n, s.ops.psort))
            else: S.regs[n] = s.named_arg(t, 'arg.' + n)
        s.args = [S.regs[n] for t, n in s.f.params]
        s.spec.setup(s)
        s.S0 = S.clone(); s.S0g = dict(S.ghost)
        s.cov.append(('entry', list(S.pc)))
        work = [(S, s.f.order[0], None)]
        while work:
            S, b, prev = work.pop()
            s.S = S
            if time.time() - s.t0 > s.budget: raise Undecided('time budget for this function used up')
            nxt = s.block(S, b, prev)
            work.extend(reversed(nxt))
    def named_arg(s, t, n):
        if isinstance(t, IntT):
            v = Const(n, s.ops.sort(t.n)); s.assume(s.ops.rng(v, t.n)); return v
        if isinstance(t, FloatT): return Const(n, FSORT[t.k])
        raise Unsupported('parameter type %r' % t)
    def phis(s, S, b, prev):
        blk = s.f.blocks[b]; vals = {}
        for ins in blk.insts:
            if ins.op != 'phi': break
            for v, pb in ins.args:
                if pb == prev: vals[ins.res] = s.operand(v, ins.ty); break
            else: raise Unsupported('phi')
        return vals
    def phi_list(s, b):
        return [i for i in s.f.blocks[b].insts if i.op == 'phi']
    def cands(s, h, L):
        """candidate invariants at loop header: list of (name, formula); evaluated in s.S"""
        out = []
        base = list(s.spec.inv(s, L)) if hasattr(s.spec, 'inv') else []
        out += base
        # generic: phi values equal at entry stay in range
        for ins in s.phi_list(h):
            v = s.S.regs[ins.res]
            if isinstance(ins.ty, IntT) and ins.ty.n > 1: pass
        # generic frame candidates
        for key in sorted(s.havoc[h][0]):
            m = s.S.mem.get(key); me = L.entry.mem.get(key)
            if m is None or me is None or m is me: continue
            for i, a in enumerate(s.args):
                if isinstance(a, Ptr):
                    out.append(('frame %s at arg%d' % (s.unit.kname(key), i), Select(m, a.addr()) == Select(me, a.addr())))
        return [(n, f) for n, f in out if (h, n) not in s.dead]
    def block(s, S, b, prev):
        h = b in s.loops
        if b in s.unrolled:
            s.nvis += 1
            if s.nvis > 2000: raise Undecided('a loop without a constant number of rounds')
        if h and prev is not None:
            vals = s.phis(S, b, prev)
            inside = b in S.active and prev in s.loops[b]
            if inside:
                L = S.active[b]
                for k, v in vals.items(): S.regs[k] = v
                s.cur = s.f.blocks[b].insts[0]
                for k, v in vals.items():
                    if k in s.scaledphi: s.exdiv(v.addr(), s.scaledphi[k])
                if hasattr(s.spec, 'loop_step'): s.spec.loop_step(s, L)
                # discover written regions
                hr, hg = s.havoc[b]
                for key in S.written - L.written0:
                    pass
                neww = {k for k in S.mem if S.mem[k] is not L.hdr.mem.get(k, s.S0mem.get(k))} - hr
                newg = {k for k in S.ghost if not (S.ghost[k] is L.hdr.ghost.get(k))} - hg
                if neww or newg:
                    if s.final: raise Undecided('loop effects not stable')
                    hr |= neww; hg |= newg; s.changed = True
                    return []
                L2 = L.at(S)
                for n, f in s.cands(b, L2):
                    s.check_inv(b, n, f, 'preserved')
                return []
            # entry from outside
            for k, v in vals.items(): S.regs[k] = v
            s.cur = s.f.blocks[b].insts[0]
            ent = S.clone()
            L = Loop(b, ent, s)
            if hasattr(s.spec, 'loop_entry'): s.spec.loop_entry(s, L)
            ent = S.clone(); L.entry = ent
            # materialise regions to be havoced so that entry has a map
            for key in s.havoc[b][0]:
                if key not in S.mem: s.mem(key)
                ent.mem[key] = S.mem[key]
            for n, f in s.cands(b, L.at(S)):
                s.check_inv(b, n, f, 'established')
            # havoc
            for ins in s.phi_list(b):
                old = S.regs[ins.res]
                nv = s.freshval(ins.ty, 'phi%s' % ins.res)
                if isinstance(nv, Ptr) and isinstance(old, Ptr):
                    nv = s.rephi(b, ins, old, nv)
                S.regs[ins.res] = nv
            for key in sorted(s.havoc[b][0]):
                S.mem[key] = fresh('mem.%s.%s' % key, S.mem[key].sort())
            for g in sorted(s.havoc[b][1]):
                S.ghost[g] = fresh('g.' + g, S.ghost[g].sort())
            if hasattr(s.spec, 'havoc_hook'): s.spec.havoc_hook(s, L)
            L.hdr = S.clone(); L.written0 = set(S.written)
            L = L.at(S)
            fs = s.cands(b, L)
            L.hdr = S.clone()
            L.base.hdr = L.hdr
            for n, f in fs: s.assume(f)
            S.active = dict(S.active); S.active[b] = L.base
            s.cov.append(('loop ' + b, list(S.pc)))
        elif prev is not None:
            vals = s.phis(S, b, prev)
            for k, v in vals.items(): S.regs[k] = v
        # leaving loops
        for hh in list(S.active):
            if b not in s.loops[hh]:
                S.active = {k: v for k, v in S.active.items() if k != hh}
        S.trace = S.trace + [b]
        insts = s.f.blocks[b].insts
        for ins in insts:
            if ins.op == 'phi': continue
            s.cur = ins
            if ins.op in ('br', 'condbr', 'switch', 'ret', 'unreachable', 'invoke'):
                return s.term(S, b, ins)
            try:
                r = s.step(S, ins)
            except Stop:
                return []
            if r is not None and isinstance(r, list):   # fork inside block (select on differently typed pointers)
                raise Unsupported('fork')
        raise Unsupported('no terminator')
    def rephi(s, b, ins, old, nv):
        # keep provenance for loop pointers when every incoming value has the same shape
        if old.prov is not None and getattr(s, 'keepprov', True):
            return Ptr(nv.base, old.off, old.prov)
        for k in (s.spec.elemsz if old.prov is None else ()):
            if s.divk(old.addr(), k) is not None:
                s.scaledphi[ins.res] = k      # whole-element pointer; re-checked at every back edge
                return Ptr(IntVal(k) * nv.base)
        return nv
    def check_inv(s, h, name, f, how):
        key = (h, name)
        if is_true(simplify(f)): 
            s.record('%s %s' % (name, how), 'invariant', True, 'trivial', 0.0, 'simplifier'); return
        ok, st, dt, be, model = s.prove(s.S.pc, f, None if s.final else min(s.timeout, getattr(s.spec, 'houdini_timeout', 4000)))
        if not ok:
            if s.final:
                s.record('%s %s' % (name, how), 'invariant', ok, st, dt, be, model)
            else:
                if os.environ.get('KV_TRACE'): print('   drop', s.spec.name, 'loop', s.loopidx[h], name, how, st, flush=True)
                s.dead[key] = how; s.changed = True
        else:
            s.record('%s %s' % (name, how), 'invariant', True, st, dt, be)
    def term(s, S, b, ins):
        op = ins.op
        if op == 'br': return [(S, ins.args[0], b)]
        if op == 'condbr':
            c = s.operand(ins.args[0], IntT(1))
            if is_true(c): return [(S, ins.args[1], b)]
            if is_false(c): return [(S, ins.args[2], b)]
            if ins.args[1] == ins.args[2]: return [(S, ins.args[1], b)]
            out = []
            ft = s.feasible(c); ff = s.feasible(Not(c))
            if ft and ff:
                s.paths += 1
                if s.paths > s.max_paths: raise Undecided('too many paths')
            if ft:
                S1 = S.clone() if ff else S
                S1.pc.append(c); out.append((S1, ins.args[1], b))
            if ff:
                S.pc.append(Not(c)) if not (ft and S1 is S) else None
                out.append((S, ins.args[2], b))
            return out
        if op == 'switch':
            ty = ins.ty
            v = s.operand(ins.args[0], ty); out = []; neg = []
            groups = {}
            for cv, lab in ins.args[2]:
                groups.setdefault(lab, []).append(v == s.ops.const(cv, ty.n))
            allc = [c for g in groups.values() for c in g]
            for lab, cs in groups.items():
                c = Or(*cs) if len(cs) > 1 else cs[0]
                if lab == ins.args[1]: continue
                if s.feasible(c):
                    S1 = S.clone(); S1.pc.append(c); out.append((S1, lab, b))
            d = And(*[Not(c) for lab, cs in groups.items() if lab != ins.args[1] for c in cs])
            s.S = S
            if s.feasible(d):
                S1 = S.clone(); S1.pc.append(d); out.append((S1, ins.args[1], b))
            s.paths += len(out)
            return out
        if op == 'ret':
            v = s.operand(ins.args[0], ins.ty) if ins.args else None
            s.exits += 1
            s.cov.append(('exit', list(S.pc)))
            s.spec.post(s, v)
            return []
        if op == 'unreachable':
            s.oblige('control does not reach the end of a function without a return value (or other undefined behaviour)', BoolVal(False), 'safety')
            return []
        raise Unsupported(op)
    def step(s, S, ins):
        op = ins.op
        if op == 'unsupported': raise Unsupported(ins.x)
        if isinstance(ins.ty, VecT) and (op in ir.BIN or op in ('fneg', 'icmp', 'fcmp') or op in ir.CAST):
            # element by element
            t = ins.ty; ft = ins.x if op in ir.CAST else t
            if not isinstance(ft, VecT) or ft.n != t.n: raise Unsupported('vector ' + op)
            vs = [s.operand(a, ft) for a in ins.args]; out = []
            for i in range(t.n):
                j = ir.Inst(op, '%vec', t.e, [Const_(v[i]) for v in vs], ft.e if op in ir.CAST else ins.x)
                s.step(S, j); out.append(S.regs.pop('%vec'))
            S.regs[ins.res] = tuple(out); return
        if op == 'extractelement':
            v = s.operand(ins.args[0], ins.ty); k = s.operand(ins.args[1], IntT(64)); S.regs[ins.res] = v[s.vidx(k)]; return
        if op == 'insertelement':
            v = list(s.operand(ins.args[0], ins.ty)); k = s.operand(ins.args[2], IntT(64)); v[s.vidx(k)] = s.operand(ins.args[1], ins.ty.e); S.regs[ins.res] = tuple(v); return
        if op == 'shufflevector':
            t, t2, m = ins.x; a = s.operand(ins.args[0], t); b = s.operand(ins.args[1], t)
            S.regs[ins.res] = tuple((a + b)[k] if k >= 0 else s.freshval(t.e, 'undef') for k in m); return
        if op in ir.BIN:
            t = ins.ty
            a = s.operand(ins.args[0], t); b = s.operand(ins.args[1], t)
            if isinstance(t, FloatT) and s.real: S.regs[ins.res] = real_bin(op, a, b); return
            if isinstance(t, FloatT):
                f = Function('%s_%s' % (op, t.k), FSORT[t.k], FSORT[t.k], FSORT[t.k])
                if op in ('fadd', 'fmul') and str(a) > str(b): a, b = b, a
                S.regs[ins.res] = f(a, b); return
            if not isinstance(t, IntT): raise Unsupported('vector arithmetic')
            S.regs[ins.res] = s.ops.bin(s, op, a, b, t.n, ins.x)
        elif op == 'fneg':
            if s.real: S.regs[ins.res] = -s.operand(ins.args[0], ins.ty); return
            S.regs[ins.res] = Function('fneg_' + ins.ty.k, FSORT[ins.ty.k], FSORT[ins.ty.k])(s.operand(ins.args[0], ins.ty))
        elif op in ir.CAST:
            ft, tt = ins.x, ins.ty; v = s.operand(ins.args[0], ft)
            if op == 'ptrtoint':
                r = v.addr()
                if s.ops.name == 'int' and not is_int_value(r): s.assume(r >= 0) if False else None
            elif op == 'inttoptr': r = Ptr(v)
            elif op == 'bitcast':
                if isinstance(ft, PtrT) and isinstance(tt, PtrT): r = v
                else: r = Function('bitcast_%r_%r' % (ft, tt), s.vsort(ft), s.vsort(tt))(v)
            elif isinstance(ft, FloatT) or isinstance(tt, FloatT):
                if s.real and op in ('fpext', 'fptrunc'): S.regs[ins.res] = v; return
                r = Function('%s_%r_%r' % (op, ft, tt), s.vsort(ft), s.vsort(tt))(v)
                if isinstance(tt, IntT): s.assume(s.ops.rng(r, tt.n))
            else: r = s.ops.cast(s, op, v, ft.n, tt.n)
            S.regs[ins.res] = r
        elif op == 'icmp':
            t = ins.ty; a = s.operand(ins.args[0], t); b = s.operand(ins.args[1], t); p = ins.x
            if isinstance(t, PtrT):
                x, y = a.addr(), b.addr()
                if s.ops.name == 'int':
                    r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[p]
                else: r = s.ops.cmp(s, p, x, y, 64)
            else: r = s.ops.cmp(s, p, a, b, t.n)
            r2 = simplify(r)
            S.regs[ins.res] = r2 if is_true(r2) or is_false(r2) else r
        elif op == 'fcmp':
            a = s.operand(ins.args[0], ins.ty); b = s.operand(ins.args[1], ins.ty)
            p = ins.x
            if s.real:
                c = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'rd': BoolVal(True), 'no': BoolVal(False)}.get(p[1:] if p not in ('ord', 'uno') else {'ord': 'rd', 'uno': 'no'}[p])
                if c is None: raise Unsupported('fcmp ' + p)
                S.regs[ins.res] = c; return
            if p in ('ogt', 'oge', 'ugt', 'uge'): p = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}[p]; a, b = b, a
            neg = p in ('une', 'ult', 'ule')
            if neg:  # unordered-or versions are negations of ordered ones
                p, a, b = {'une': ('oeq', a, b), 'ult': ('ole', b, a), 'ule': ('olt', b, a)}[p]
            if p in ('oeq', 'one', 'ueq') and str(a) > str(b): a, b = b, a
            r = Function('fcmp_%s_%s' % (p, ins.ty.k), FSORT[ins.ty.k], FSORT[ins.ty.k], BoolSort())(a, b)
            S.regs[ins.res] = Not(r) if neg else r
        elif op == 'load':
            p = s.operand(ins.args[0], PTR)
            if ins.x == 'atomic':
                S.log.append(('atomic-load', p, ins.x.order))
            S.regs[ins.res] = s.load(p, ins.ty, ins.tbaa)
        elif op == 'store':
            v = s.operand(ins.args[0], ins.ty); p = s.operand(ins.args[1], PTR)
            if ins.x == 'atomic': S.log.append(('atomic-store', p, ins.x.order))
            s.store(p, v, ins.ty, ins.tbaa)
        elif op == 'gep':
            p = s.operand(ins.args[0][1], PTR)
            S.regs[ins.res] = s.gep(p, ins.ty, [(t, s.operand(v, t)) for t, v in ins.args[1:]])
        elif op == 'select':
            c = s.operand(ins.args[0], IntT(1)); a = s.operand(ins.args[1], ins.ty); b = s.operand(ins.args[2], ins.ty)
            if is_true(c): S.regs[ins.res] = a
            elif is_false(c): S.regs[ins.res] = b
            elif isinstance(a, Ptr):
                if a.prov == b.prov and a.off == b.off and a.vt == b.vt:
                    S.regs[ins.res] = Ptr(ite(c, a.base, b.base), a.off, a.prov)
                else:
                    if not s.feasible(c): S.regs[ins.res] = b
                    elif not s.feasible(Not(c)): S.regs[ins.res] = a
                    else: S.regs[ins.res] = Ptr(ite(c, a.addr(), b.addr()), 0, None)
            else: S.regs[ins.res] = ite(c, a, b) if not isinstance(a, tuple) else tuple(ite(c, x, y) for x, y in zip(a, b))
        elif op == 'alloca':
            s.nalloca += 1
            k = ins.res
            if k not in S.allocas: S.allocas[k] = len(S.allocas) + 1
            base = -(S.allocas[k] * 4096) - 64
            lf = s.leaf(ins.ty, 0) if isinstance(ins.ty, StructT) else None
            bp = s.ops.pconst(base)
            S.regs[ins.res] = Ptr(bp, 0, (lf[0], lf[1]) if lf and lf[0] != 'arr' else None)
        elif op == 'extractvalue':
            v = s.operand(ins.args[0], ins.ty)
            for i in ins.x: v = v[i]
            S.regs[ins.res] = v
        elif op == 'insertvalue':
            v = s.operand(ins.args[0], ins.ty); ix, t2 = ins.x; e = s.operand(ins.args[1], t2)
            def put(v, ix):
                l = list(v)
                l[ix[0]] = e if len(ix) == 1 else put(l[ix[0]], ix[1:])
                return tuple(l)
            S.regs[ins.res] = put(v, ix)
        elif op == 'freeze': S.regs[ins.res] = s.operand(ins.args[0], ins.ty)
        elif op == 'call': return s.call(S, ins)
        elif op == 'atomicrmw':
            p = s.operand(ins.args[0], PTR); v = s.operand(ins.args[1], ins.ty)
            o, rest = ins.x
            old = s.load(p, ins.ty, ins.tbaa)
            n = ins.ty.n if isinstance(ins.ty, IntT) else 64
            if o == 'xchg': new = v
            elif o in ('add', 'sub', 'and', 'or', 'xor'): new = s.ops.bin(s, o, old, v, n, set())
            elif o == 'nand': new = s.ops.bin(s, 'xor', s.ops.bin(s, 'and', old, v, n, set()), s.ops.const(-1, n), n, set())
            else: raise Unsupported('atomicrmw ' + o)
            s.store(p, new, ins.ty, ins.tbaa)
            S.log.append(('rmw', o, p, [w for _, w in rest])); S.regs[ins.res] = old
        elif op == 'cmpxchg':
            p = s.operand(ins.args[0], PTR); c = s.operand(ins.args[1], ins.ty); v = s.operand(ins.args[2], ins.ty)
            old = s.load(p, ins.ty, ins.tbaa)
            if isinstance(ins.ty, PtrT):
                eq = old.addr() == c.addr(); new = Ptr(ite(eq, v.addr(), old.addr()))
            else: eq = old == c; new = ite(eq, v, old)
            weak, rest = ins.x
            if weak:
                ok = fresh('weakok', BoolSort()); eq2 = And(eq, ok); new = ite(eq2, v, old) if not isinstance(ins.ty, PtrT) else Ptr(ite(eq2, v.addr(), old.addr())); eq = eq2
            s.store(p, new, ins.ty, ins.tbaa)
            S.log.append(('rmw', 'cmpxchg-weak' if weak else 'cmpxchg', p, [w for _, w in rest], eq)); S.regs[ins.res] = (old, eq)
        elif op == 'fence': S.log.append(('fence',))
        else: raise Unsupported(op)
    def vsort(s, t):
        if isinstance(t, IntT): return s.ops.sort(t.n)
        if isinstance(t, PtrT): return s.ops.psort
        if isinstance(t, FloatT): return FSORT[t.k]
        raise Unsupported('sort of %r' % t)
    def call(s, S, ins):
        callee = ins.x
        args = [(s.operand(v, t) if v is not None else None) for t, v in ins.args]
        if isinstance(callee, CGlobal):
            n = callee.n
            if n.startswith('llvm.'):
                r = s.intrinsic(S, n, args, ins)
            else:
                d = s.unit.dem(n)
                c = s.spec.callee(s, d, n)
                if c is None: raise Unsupported('call to function without contract: ' + d)
                r = c(s, args, ins)
        else:
            p = s.operand(callee, PTR)
            if p.vt and p.vt[0] == 'fn':
                c = s.spec.vcall(s, p.vt[2]) if hasattr(s.spec, 'vcall') else None
                if c is None: raise Unsupported('virtual call slot %d' % p.vt[2])
                r = c(s, args, ins)
            else:
                c = s.spec.icall(s, p) if hasattr(s.spec, 'icall') else None
                if c is None: raise Unsupported('indirect call')
                r = c(s, args, ins)
        if ins.res is not None: S.regs[ins.res] = r
    def intrinsic(s, S, n, args, ins):
        if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.va_', 'llvm.stack', 'llvm.donothing', 'llvm.prefetch')): return None
        if n.startswith('llvm.expect'): return args[0]
        if n.startswith(('llvm.memcpy', 'llvm.memmove')):
            s.memmove(args[0], args[1], args[2]); return None
        if n.startswith('llvm.memset'):
            s.memset(args[0], args[1], args[2]); return None
        if n.startswith('llvm.ctlz') or n.startswith('llvm.cttz') or n.startswith('llvm.ctpop'):
            t = ins.ty
            if s.ops.name == 'bv':
                v = args[0]; k = t.n
                if 'ctlz' in n or 'cttz' in n:
                    r = BitVecVal(k, k)
                    for i in (range(k) if 'ctlz' in n else reversed(range(k))):
                        r = If(Extract(i, i, v) == 1, BitVecVal(k-1-i if 'ctlz' in n else i, k), r)
                    # zero input: poison, any value (clang speculates the call and selects it away)
                    if is_true(args[1]): r = If(v == 0, fresh('poison', BitVecSort(k)), r)
                    return r
        if n.startswith(('llvm.umin', 'llvm.umax')) and s.ops.name == 'int':
            a, b = args[0], args[1]
            return ite(a < b, a, b) if 'umin' in n else ite(a > b, a, b)
        if n.startswith(('llvm.fabs', 'llvm.sqrt', 'llvm.fmuladd', 'llvm.floor', 'llvm.ceil')):
            b = n.split('.')[1]
            if b == 'fmuladd':
                # treated as separate multiply and add (no contraction at the reference build)
                k = ins.ty.k
                x, y = args[0], args[1]
                if s.real: return x * y + args[2]
                if str(x) > str(y): x, y = y, x
                m = Function('fmul_' + k, FSORT[k], FSORT[k], FSORT[k])(x, y); a = args[2]
                if str(m) > str(a): m, a = a, m
                return Function('fadd_' + k, FSORT[k], FSORT[k], FSORT[k])(m, a)
            if s.real and b == 'fabs': return If(args[0] < 0, -args[0], args[0])
            return Function(b if s.real else b + '_' + ins.ty.k, *([FSORT[ins.ty.k]] * 2))(args[0])
        if n.startswith('llvm.trap'):
            s.oblige('no trap', BoolVal(False)); raise Stop()
        if n.startswith('llvm.') and 'with.overflow' in n and s.ops.name == 'int':
            a, b = args[0], args[1]; k = ins.ty.fs[0].n; M = 1 << k
            if 'umul' in n: r = a * b; return (r % M if not s.entails(r < M) else r, r >= M)
            if 'uadd' in n: r = a + b; return (ite(r >= M, r - M, r), r >= M)
        raise Unsupported('intrinsic ' + n)
    def memmove(s, d, src, n):
        """whole objects move: every region map is shifted by the same address difference"""
        if hasattr(s.spec, 'memmove') and s.spec.memmove(s, d, src, n): return
        if is_int_value(n) and n.as_long() == 0: return
        da, sa = d.addr(), src.addr()
        if is_int_value(n) and n.as_long() <= 256:
            # small constant copy of struct(s): copy every region that may hold a field there
            N = n.as_long()
            hits = s.unit.struct_fields_cover(s, d, src, N)
            if hits is not None:
                for key, off, ty in hits:
                    m = s.mem(key, s.region_sort(ty) if ty is not None else None)
                    so = sa + off if off else sa; do = da + off if off else da
                    v = s.select_simp(m, so)
                    s.S.mem[key] = Store(m, do, v); s.S.written.add(key)
                return
        raise Unsupported('memcpy of unmodelled range')
    def memset(s, d, v, n):
        if hasattr(s.spec, 'memset') and s.spec.memset(s, d, v, n): return
        raise Unsupported('memset')

class Const_:
    """an operand that is already a value"""
    def __init__(s, v): s.v = v

class Loop:
    def __init__(s, h, entry, ex):
        s.h = h; s.entry = entry; s.ex = ex; s.hdr = None; s.base = s; s.written0 = set()
        s.idx = ex.loopidx[h]
    def at(s, S):
        l = Loop(s.h, s.entry, s.ex); l.hdr = s.hdr; l.base = s.base; l.S = S; l.written0 = s.written0
        l.phis = [(i, S.regs[i.res]) for i in s.ex.phi_list(s.h)]
        l.pphis = [(i.res, v) for i, v in l.phis if isinstance(v, Ptr)]
        l.iphis = [(i.res, v, i.ty.n) for i, v in l.phis if isinstance(i.ty, IntT)]
        l.entryphi = {i.res: s.entry.regs.get(i.res) for i, _ in l.phis}
        return l
