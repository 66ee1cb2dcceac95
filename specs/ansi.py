"""Contracts for MallocAnsi (hal/malloc_ansi.h, private/hal/malloc_ansi.cpp).

Ghost heap: alive (starts of live system blocks), bsize (their usable sizes, as malloc_usable_size reports), bytes (contents).
The system functions are assumed by their POSIX contracts, failure of posix_memalign included."""
from speclib import *
UNIT = 'ansi.cpp'
KEEP = ()
MULT = Function('multiple', I, I, BoolSort())       # multiple(a, x): x is a multiple of a
POW2 = Function('pow2', I, BoolSort())              # x is a power of two
class AS(Spec):
    def setup(s, ex):
        s.heap(ex); ex.setg('bytes', Const('bytes0', AI)); g = ex.S.ghost
        ex.assume(forall(['p'], lambda p: Implies(Select(g['alive'], p), And(p > 0, Select(g['bsize'], p) >= 0, p + Select(g['bsize'], p) < (1 << 62))), lambda p: [Select(g['alive'], p)]))
        s.o = s.n = s.a = None
        if s.name == 'ansi_alloc': s.n, s.a = ex.args[1:3]
        elif s.name == 'ansi_realloc': s.o, s.n, s.a = ex.args[1].addr(), ex.args[2], ex.args[3]
        else: s.o = ex.args[1].addr()
        if s.a is not None:
            # powers of two: 8 is one, and of two powers the smaller divides every multiple of the larger
            ex.assume(And(s.a > 0, POW2(s.a), POW2(IntVal(8)), s.a < (1 << 62), s.n < (1 << 62)))
            ex.assume(forall(['a', 'b', 'x'], lambda a, b, x: Implies(And(POW2(a), POW2(b), a <= b, MULT(b, x)), MULT(a, x)), lambda a, b, x: [(POW2(a), MULT(b, x))]))
        if s.o is not None: ex.assume(And(s.o >= 0, Or(s.o == 0, Select(g['alive'], s.o))))
    def valid(s, ex, p, key, idx, size, how): return BoolVal(False)
    def callee(s, ex, dem, name):
        return {'posix_memalign': s.memalign, 'malloc_usable_size': s.usable, 'free': s.cfree, 'memcpy': s.cpy}.get(name) or super().callee(ex, dem, name)
    def memalign(s, ex, a, ins):
        """assumed (POSIX): the alignment must be a power of two multiple of sizeof(void*); either 0 and a fresh aligned block of at
        least the size, or an error and the output not to be relied on"""
        pp, al, n = a; g = ex.S.ghost; b = fresh('blk', I); u = fresh('usable', I); err = fresh('err', I)
        ex.oblige('posix_memalign: alignment is a power of two multiple of sizeof(void*)', And(POW2(al), al >= 8), 'precondition')
        ok = err == 0
        ex.assume(And(err >= 0, err < (1 << 31), b > 0, u >= n, b + u < (1 << 62), MULT(al, b), Not(Select(g['alive'], b))))
        ex.assume(forall(['q'], lambda q: Implies(Select(g['alive'], q), Or(q + Select(g['bsize'], q) <= b, b + u <= q)), lambda q: [Select(g['alive'], q)]))
        na, nb = fresh('alive', AB), fresh('bsize', AI)
        ex.assume(And(na == If(ok, Store(g['alive'], b, BoolVal(True)), g['alive']), nb == If(ok, Store(g['bsize'], b, u), g['bsize'])))
        ex.setg('alive', na); ex.setg('bsize', nb)
        key, idx = ex.region(pp, PTR, None)
        ex.S.mem[key] = Store(ex.mem(key, I), idx, If(ok, b, fresh('junk', I)))
        ex.S.log.append(('memalign', b, ok, n, al))
        return err
    def usable(s, ex, a, ins):
        p = a[0].addr(); g = ex.S.ghost
        ex.oblige('malloc_usable_size is given a live block', Select(g['alive'], p), 'memory')
        return Select(g['bsize'], p)
    def cfree(s, ex, a, ins):
        p = a[0].addr(); g = ex.S.ghost
        ex.oblige('free() is given null or a live block (no double free, no foreign pointer)', Or(p == 0, Select(g['alive'], p)), 'memory')
        ex.setg('alive', Store(g['alive'], p, BoolVal(False))); ex.S.log.append(('free', p)); return None
    def cpy(s, ex, a, ins): s.memmove(ex, *a); return a[0]
    def memmove(s, ex, d, q, n):
        d, q = d.addr(), q.addr(); g = ex.S.ghost; B = g['bytes']
        ex.oblige('copied bytes come from a live block', And(Select(g['alive'], q), n <= Select(g['bsize'], q)), 'memory')
        ex.oblige('copied bytes go to a live block', And(Select(g['alive'], d), n <= Select(g['bsize'], d)), 'memory')
        ex.oblige('copied ranges do not overlap', Or(n == 0, d + n <= q, q + n <= d), 'memory')
        ex.setg('bytes', defarr(ex, 'bytes', lambda k: If(And(d <= k, k < d + n), Select(B, q + (k - d)), Select(B, k))))
        return True
    def others(s, ex, *but):
        g, g0 = ex.S.ghost, ex.S0.ghost
        s.ens(ex, 'frame: no other block is obtained or released', forall(['p'], lambda p: Implies(And(*[p != b for b in but]), Select(g['alive'], p) == Select(g0['alive'], p)), lambda p: [Select(g['alive'], p)]))
        s.ens(ex, 'frame: sizes and contents of other live blocks unchanged', forall(['p', 'd'], lambda p, d: Implies(And(Select(g0['alive'], p), 0 <= d, d < Select(g0['bsize'], p)), And(Select(g['bsize'], p) == Select(g0['bsize'], p), Select(g['bytes'], p + d) == Select(g0['bytes'], p + d))), lambda p, d: [(Select(g0['alive'], p), Select(g['bytes'], p + d))]))
    def got(s, ex, r, may):
        """r is a fresh live block of the requested size and alignment, or null exactly when the system refuses"""
        g, g0 = ex.S.ghost, ex.S0.ghost; al = [e for e in ex.S.log if e[0] == 'memalign']
        s.ens(ex, 'the system is asked once', BoolVal(len(al) == 1))
        if len(al) != 1: return
        _, b, ok, n, a = al[0]
        s.ens(ex, 'null is returned only when the system refuses', (r != 0) == ok)
        s.ens(ex, 'the block is new and live', Implies(r != 0, And(Select(g['alive'], r), Not(Select(g0['alive'], r)))))
        s.ens(ex, 'the block has at least the requested size', Implies(r != 0, Select(g['bsize'], r) >= s.n))
        s.ens(ex, 'the block has the requested alignment', Implies(r != 0, MULT(s.a, r)))
    def post(s, ex, ret):
        g, g0 = ex.S.ghost, ex.S0.ghost; r = fresh('ret', I)
        if isinstance(ret, Ptr): ex.assume(r == ret.addr())
        if s.name == 'ansi_free':
            s.ens(ex, 'the block is released to the system, null is ignored', Not(Select(g['alive'], s.o)))
            s.ens(ex, 'released once', BoolVal(len(ex.S.log) <= 1)); s.others(ex, s.o); return
        if s.name == 'ansi_alloc':
            s.got(ex, r, True); s.ens(ex, 'nothing is released', BoolVal(not any(e[0] == 'free' for e in ex.S.log))); s.others(ex, r); return
        # realloc
        if ex.proves(s.o == 0):
            s.ens(ex, 'without a block, realloc allocates', s.o == 0); s.got(ex, r, True); s.others(ex, r); return
        fr = [e for e in ex.S.log if e[0] == 'free']
        if ex.proves(s.n == 0):
            s.ens(ex, 'resizing to nothing releases the block', And(s.o != 0, s.n == 0, r == 0, Not(Select(g['alive'], s.o)), BoolVal(len(fr) == 1))); s.others(ex, s.o); return
        s.ens(ex, 'there is a block and a size', And(s.o != 0, s.n > 0)); s.got(ex, r, True)
        u0 = Select(g0['bsize'], s.o); m = If(s.n < u0, s.n, u0)
        s.ens(ex, 'contents are preserved up to the smaller size', forall(['d'], lambda d: Implies(And(r != 0, 0 <= d, d < m), Select(g['bytes'], r + d) == Select(g0['bytes'], s.o + d)), lambda d: [Select(g['bytes'], r + d)]))
        s.ens(ex, 'the original block is released exactly when the new one was obtained', Select(g['alive'], s.o) == (r == 0))
        s.ens(ex, 'the original block is released once', BoolVal(len(fr) <= 1)); s.others(ex, s.o, r)
def contracts(u):
    return {n: AS(n, u) for n in ('ansi_alloc', 'ansi_realloc', 'ansi_free')}
