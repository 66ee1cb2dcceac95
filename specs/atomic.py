"""Contracts for templates/atomic.h and unix/unix_platform_atomics.h, thread-modular: between any two steps other threads may
write any value to the atomic, so every atomic read yields an arbitrary value.  Each operation must be one indivisible
access; its result and the stored value are functions of the value that same access read."""
from speclib import *
UNIT = 'atomic.cpp'
WD = {'int8': 8, 'uint8': 8, 'int16': 16, 'uint16': 16, 'int32': 32, 'uint32': 32, 'int64': 64, 'uint64': 64, 'pi': 64, 'pe': 64}
SZ = {'pi': 4, 'pe': 12}
class At(Spec):
    ops = 'bv'
    def __init__(s, n, u, op, T): super().__init__(n, u); s.op = op; s.T = T; s.w = WD[T]
    def setup(s, ex):
        s.a = ex.args[0].addr(); ex.assume(s.a > 0); ex.assume(s.a & (s.w // 8 - 1) == 0)
    def mine(s, ex, p): return ex.proves(p.addr() == s.a)
    def valid(s, ex, p, key, idx, size, how):
        i = ex.cur
        at = i.op in ('atomicrmw', 'cmpxchg') or getattr(i, 'x', None) == 'atomic'
        if not s.mine(ex, p):
            return BoolVal(False)      # nothing but the atomic is accessed (locals live in registers)
        ex.oblige('the shared value is only accessed atomically (no data race)', BoolVal(bool(at) or s.op == 'ctor'), 'memory')
        ex.oblige('the access covers the whole value', BoolVal(size * 8 == s.w), 'memory')
        return None
    def load_hook(s, ex, p, key, idx, ty):
        v = ex.freshval(ty, 'shared')      # whatever another thread stored last
        ex.S.log.append(('old', p, v)); return v
    def store_hook(s, ex, p, key, idx, v, ty):
        ex.S.log.append(('new', p, v)); return True
    def val(s, v):
        v = v.addr() if isinstance(v, Ptr) else v
        return v if v is None or v.size() == s.w else Extract(s.w - 1, 0, v)
    def inv(s, ex, L):     # compare-and-swap loops: nothing has been written when the header is reached
        yield 'retry', BoolVal(True)
    def loop_step(s, ex, L):
        for e in ex.S.log[len(L.base.hdr.log):]:
            if e[0] == 'rmw' and e[1].startswith('cmpxchg'): ex.oblige('a retried attempt has not written', Not(e[4]), 'loop')
            elif e[0] in ('rmw', 'atomic-store'): ex.oblige('a retried attempt has not written', BoolVal(False), 'loop')
    def post(s, ex, r):
        log = [e for e in ex.S.log]; r = s.val(r); T = s.T; op = s.op
        arg = s.val(ex.args[1]) if len(ex.args) > 1 else None
        olds = [s.val(e[2]) for e in log if e[0] == 'old']; news = [s.val(e[2]) for e in log if e[0] == 'new']
        seq = lambda o: BoolVal('seq_cst' in o)
        if op in ('load', 'loadRelaxed', 'cast'):
            ev = [e for e in log if e[0] in ('atomic-load', 'atomic-store', 'rmw')]
            s.ens(ex, 'exactly one atomic read and no write', BoolVal(len(ev) == 1 and ev[0][0] == 'atomic-load' and not news))
            s.ens(ex, 'returns the value that was read', r == olds[0] if olds else BoolVal(False))
            if op != 'loadRelaxed': s.ens(ex, 'sequentially consistent', BoolVal(bool(ev) and ev[0][2] == 'seq_cst'))
        elif op in ('store', 'storeRelaxed', 'assign'):
            ev = [e for e in log if e[0] in ('atomic-load', 'atomic-store', 'rmw')]
            wr = [e for e in ev if e[0] == 'atomic-store' or (e[0] == 'rmw' and e[1] == 'xchg')]
            s.ens(ex, 'exactly one atomic write', BoolVal(len(wr) == 1 and len(news) == 1 and not any(e[0] == 'rmw' and e[1] != 'xchg' for e in ev)))
            if news: s.ens(ex, 'the argument is stored', news[-1] == arg)
            if op == 'assign': s.ens(ex, 'returns the assigned value', r == arg)
            if op != 'storeRelaxed': s.ens(ex, 'sequentially consistent', BoolVal(bool(wr) and 'seq_cst' in (wr[0][2] if wr[0][0] == 'atomic-store' else wr[0][3])))
        elif op == 'ctor':
            s.ens(ex, 'the initial value is stored', And(BoolVal(len(news) >= 1), news[-1] == arg) if news else BoolVal(False))
        else:
            one = BitVecVal(SZ.get(T, 1), s.w)
            amt = {'preInc': one, 'postInc': one, 'preDec': one, 'postDec': one}.get(op)
            if amt is None: amt = arg * BitVecVal(SZ.get(T, 1), s.w) if op != 'exch' else arg
            rm = [e for e in log if e[0] == 'rmw' and not (len(e) > 4 and ex.proves(Not(e[4])))]
            s.ens(ex, 'exactly one atomic read-modify-write, and no separate store', BoolVal(len(rm) == 1 and not any(e[0] == 'atomic-store' for e in log)))
            if len(rm) != 1 or not news: s.ens(ex, 'the value is modified', BoolVal(False)); return
            i = max(k for k, e in enumerate(log) if e is rm[0]); old = s.val([e for e in log[:i + 1] if e[0] == 'old'][-1][2]); new = s.val([e for e in log[:i + 1] if e[0] == 'new'][-1][2])
            s.ens(ex, 'sequentially consistent', seq(rm[0][3]))
            up = op in ('preInc', 'postInc', 'add')
            want = amt if op == 'exch' else (old + amt if up else old - amt)
            s.ens(ex, 'the stored value is the old value changed by the amount', new == want)
            s.ens(ex, 'result', r == (old if op in ('postInc', 'postDec', 'exch') else want))

def contracts(u):
    C = {}
    for n in u.mod.funcs:
        m = re.match(r'(load|loadRelaxed|cast|store|storeRelaxed|assign|preInc|postInc|preDec|postDec|exch|ctor|add|sub)_(\w+)$', n)
        if m and m.group(2) in WD: C[n] = At(n, u, m.group(1), m.group(2))
    return C
