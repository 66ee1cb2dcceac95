"""Contracts for containers/string.h (StringBase<char>) and generic/generic_platform_strings.h.

A string is an Array<char> (invariant of arr.py) with count >= 1 whose last counted cell is zero; its text is the count-1
characters before it.  C-string arguments carry a ghost length.  K, F ... are ghost constants that name the first position with
a property (first difference, first match): such a position always exists once the end of the range counts as one.
getLength, cmp, icmp, cmpn, icmpn, findIndex and the private splice have contracts of their own."""
from arr import *
from ir import *
import vc as _vc
UNIT = 'string.cpp'
KEEP = (r'PlatformStrings::(getLength|cmp|icmp|cmpn|icmpn)\(', r'StringBase<char>::findIndex\((char const\*|char),', r'StringBase<char>::splice\([a-z ]*, [a-z ]*, char const\*, [a-z ]*\)', r'Array<unsigned long( long)?(, void)?>::add[<(]')
R8 = ('raw', 'i8')
MATCH = Function('MATCH', AI, I, I, I, BoolSort())      # MATCH(M, x, y, n): the n bytes at x and y are equal (meaning given by memcmp)
FLEN, FCH = Function('FLEN', I, I), Function('FCH', I, I, I)   # length and characters of a formatted text
def sg(c): return If(c >= 128, c - 256, c)
def i32(v): return If(v < 0, v + (1 << 32), v)
def LOW(c): return If(And(65 <= c, c <= 90), c + 32, c)
def UP(c): return If(And(97 <= c, c <= 122), c - 32, c)
def CEQ(a, b): return LOW(a) == LOW(b)
NARG = {'%d': 'i32', '%u': 'i32', '%lld': 'i64', '%llu': 'i64', '%f': repr(FloatT('double'))}

class ST(AS):
    elem = False; esz = 1; reg = R8; X = 'Str'; pscale = None; elemsz = ()
    solver_opts = {'smt.relevancy': 0}
    texts = False           # precondition: no zero inside the texts
    fills = ()
    def setup(s, ex):
        s.objects = []; s.heap(ex); s.life(ex); ex.setg('own', Const('own0', AI)); ex.setg('done', IntVal(0))
        s.a = []; s.n = {}; s.consts = []; M = ex.mem(R8, I)
        ex.S.x['blks'] = []; ex.S.x['stk'] = []
        s.R0 = {}
        for i, k in enumerate(s.args_):
            nm = ex.f.params[i][1]
            if k in 'ad':
                p = s.argp(ex, i, 'Str'); s.objects.append(p); s.a.append(p); ex.assume(p < (1 << 60))
                for q in s.objects[:-1]: ex.assume(Or(p + 32 <= q, q + 32 <= p))
            elif k == 'o':
                p = s.argp(ex, i); s.objects.append(p); s.a.append(p); ex.assume(p < (1 << 60))
            elif k in 'sr':
                p = Int('cstr%d' % i); ex.args[i] = Ptr(p); ex.S.regs[nm] = ex.args[i]; s.a.append(p); L = Int('len%d' % i); s.n[i] = L
                ex.assume(And(p > 0, L >= 0, L < CAP, p + L + 1 < TOP))
                if k == 's': ex.assume(Select(M, p + L) == 0); ex.assume(forall(['c'], lambda c: Implies(And(p <= c, c < p + L), Select(M, c) != 0), lambda c: [Select(M, c)]))
            elif k == 'i': s.a.append(ex.args[i]); ex.assume(ex.args[i] < CAP)
            elif k == 'f': s.a.append(ex.args[i].addr()); ex.assume(ex.args[i].addr() > 0)
            else: s.a.append(ex.args[i].addr() if isinstance(ex.args[i], Ptr) else ex.args[i])
        for i, k in enumerate(s.args_):
            if k == 'a':
                q, n, cap = s.qn(ex, i)
                for nm, f in s.AI(ex, i): ex.assume(f)
                ex.assume(And(s.R(ex, i, 'malloc') > 0, n < CAP, cap < CAP, q < TOP, Select(ex.S.ghost['bsize'], q) < CAP * 4))
                for q2 in ex.S.x['blks']: s.disj(ex, q, q2)
                ex.S.x['blks'] = ex.S.x['blks'] + [q]
                for j, m in s.n.items(): ex.assume(s.outside(ex, s.a[j], m + 1, q))
                if s.texts: ex.assume(forall(['c'], lambda c: Implies(And(q <= c, c < q + n - 1), Select(M, c) != 0), lambda c: [Select(M, c)]))
        s.fmts = {}
        for n, g in sorted(s.unit.mod.globals.items()):
            v = g[1] if g else None; t = g[0] if g else None
            if not isinstance(t, ArrT) or not isinstance(t.e, IntT) or t.e.n != 8 or t.n > 8: continue
            b = bytes(v.b) if isinstance(v, CStr) else bytes(t.n) if isinstance(v, CZero) else None
            if b is None or b[-1]: continue
            a = ex.global_ptr(n).addr(); s.consts.append((a, len(b))); s.fmts[a.as_long()] = b[:-1].decode('latin1')
            for k, c in enumerate(b): ex.assume(Select(M, a + k) == c)
        s.tmps = {}
        for b in ex.f.blocks.values():
            for x in b.insts:
                if x.op == 'alloca' and isinstance(x.ty, StructT) and re.search(r'StringBase|Array', x.ty.name or ''): s.tmps[x.res] = x
        s.pre(ex)
    def pre(s, ex): pass
    def AI(s, ex, i, S=None):
        yield from AS.AI(s, ex, i, S)
        q, n, cap = s.qn(ex, i, S); M = s.content(ex, S)
        yield 'the text is terminated', And(n >= 1, q > 0, Select(M, q + n - 1) == 0)
    # ---- where memory may be read and written
    def readable(s, ex, c, n):
        r = s.inblock(ex, c, n) + [And(p <= c, c + n <= p + w) for p, w in s.consts + ex.S.x['stk']]
        for j, L in s.n.items(): r.append(And(s.a[j] <= c, c + n <= s.a[j] + L + (1 if s.args_[j] == 's' else 0)))
        return r
    def writable(s, ex, c, n): return s.inblock(ex, c, n) + [And(p <= c, c + n <= p + w) for p, w in ex.S.x['stk']]
    def valid(s, ex, p, key, idx, size, how):
        if key == ('raw', 'vtable'): return None
        if key == R8 and size == 1: return Or(*(s.writable(ex, idx, 1) if how == 'store' else s.readable(ex, idx, 1)))
        if key[0] == 'raw': return BoolVal(False)
        return Or(*[idx == o for o in s.objects])
    def src_fresh(s, ex, q, n):
        for j, m in s.n.items(): ex.assume(Or(s.a[j] + m + 1 <= q, q + n <= s.a[j]))
    def write(s, ex, d, n, f, what):
        """the n cells at d become f(0..n-1)"""
        ex.oblige('%s: the bytes written lie inside the buffer' % what, Or(n <= 0, *s.writable(ex, d, n)), 'memory')
        M = s.content(ex); r = within(d, n)
        s.setcontent(ex, defarr(ex, 'mem', lambda c: If(r(c), f(M, c), Select(M, c))))
    def memmove(s, ex, d, src, n):
        d, q = d.addr(), src.addr()
        ex.oblige('memory copied from lies inside the source', Or(n == 0, *s.readable(ex, q, n)), 'memory')
        if 'memcpy' in ex.cur.x.n: ex.oblige('memcpy ranges do not overlap', Or(n == 0, d == q, d + n <= q, q + n <= d), 'memory')
        s.write(ex, d, n, lambda M, c: Select(M, c - d + q), 'copy'); return True
    def memset(s, ex, d, v, n):
        if is_int_value(d.addr()) and d.addr().as_long() < 0 and is_int_value(n) and n.as_long() <= 4096:
            ex.S.x['stk'] = ex.S.x['stk'] + [(d.addr(), n.as_long())]
        s.write(ex, d.addr(), n, lambda M, c: v, 'fill'); return True
    # ---- contracts used at calls
    def terms(s, ex):
        """known terminators: (start, position of a zero, all of it readable)"""
        for i, k in enumerate(s.args_):
            if k == 's': yield s.a[i], s.a[i] + s.n[i]
            if k == 'a':
                q, n, _ = s.qn(ex, i); yield q, q + n - 1
        for a, n in s.consts: yield a, a + n - 1
    def terminated(s, ex, x):
        ex.oblige('a terminated string is given', Or(*[And(a <= x, x <= t, Select(s.content(ex), t) == 0) for a, t in s.terms(ex)]), 'precondition')
    def before(s, ex, x, k):
        for a, t in s.terms(ex): ex.assume(Implies(And(a <= x, x <= t), x + k <= t))
    def h_getLength(s, ex, a, ins):
        x = a[0].addr(); s.terminated(ex, x); L = fresh('len', I); M = s.content(ex)
        ex.assume(And(L >= 0, L < CAP, Select(M, x + L) == 0)); s.before(ex, x, L)
        ex.assume(forall(['c'], lambda c: Implies(And(x <= c, c < x + L), Select(M, c) != 0), lambda c: [Select(M, c)]))
        return L
    def diff(s, ex, x, y, eq, zero):
        M = s.content(ex); k = fresh('k', I); ex.assume(And(k >= 0, k < CAP)); X, Y = Select(M, x + k), Select(M, y + k)
        ex.assume(And(0 <= X, X < 256, 0 <= Y, Y < 256))
        ex.assume(forall(['c'], lambda c: Implies(And(x <= c, c < x + k), And(eq(Select(M, c), Select(M, c - x + y)), *([Select(M, c) != 0] if zero else []))), lambda c: [Select(M, c)]))
        return M, k, X, Y
    def h_cmp(s, ex, a, ins, eq=lambda a, b: a == b):
        x, y = a[0].addr(), a[1].addr(); s.terminated(ex, x); s.terminated(ex, y)
        M, k, X, Y = s.diff(ex, x, y, eq, True); s.before(ex, x, k); s.before(ex, y, k)
        ex.assume(Or(Not(eq(X, Y)), And(X == 0, Y == 0)))
        return If(eq(X, Y), IntVal(0), i32(sg(X) - sg(Y)))
    def h_icmp(s, ex, a, ins): return s.h_cmp(ex, a, ins, CEQ)
    def h_cmpn(s, ex, a, ins, eq=lambda a, b: a == b):
        x, y, n = a[0].addr() + a[3], a[1].addr() + a[3], a[2]
        for p in (x, y): ex.oblige('the compared bytes are readable', Or(n == 0, *s.readable(ex, p, n)), 'precondition')
        M, k, X, Y = s.diff(ex, x, y, eq, False); ex.assume(And(k <= n, Or(k == n, Not(eq(X, Y)))))
        if eq(X, Y).eq(X == Y): ex.assume((k == n) == MATCH(M, x, y, n))
        return If(k == n, IntVal(0), i32(sg(X) - sg(Y)))
    def h_icmpn(s, ex, a, ins): return s.h_cmpn(ex, a, ins, CEQ)
    def h_memcmp(s, ex, a, ins):
        x, y, n = a[0].addr(), a[1].addr(), a[2]
        for p in (x, y): ex.oblige('the compared bytes are readable', Or(n == 0, *s.readable(ex, p, n)), 'memory')
        r = ex.freshval(ins.ty, 'memcmp'); ex.assume((r == 0) == MATCH(s.content(ex), x, y, n)); return r
    def obj(s, ex, p):
        """the string object at p: buffer, length; its invariant is an obligation"""
        i = next((i for i, k in enumerate(s.args_) if k == 'a' and p.addr().eq(s.a[i])), None)
        if i is None: raise Unsupported('a string that is no argument')
        for nm, f in s.AI(ex, i): ex.oblige('string %d: %s' % (i, nm), f, 'precondition')
        q, n, cap = s.qn(ex, i); return i, q, n - 1
    def found(s, ex, lo, hi, hit):
        """smallest k in [lo, hi] with hit(k), or -1"""
        r = fresh('idx', I); ex.assume(Or(r == -1, And(lo <= r, r <= hi, hit(r))))
        s.absent(ex, lo, If(r == -1, hi + 1, r))
        return If(r == -1, IntVal((1 << 64) - 1), r)
    def h_findC(s, ex, a, ins):
        i, q, n = s.obj(ex, a[0]); y, st, m = a[1].addr(), a[2], a[3]; M = s.content(ex)
        L = fresh('len', I)
        if not ex.entails(m > 0):
            ex.oblige('a terminated string is given', Or(m > 0, *[And(b <= y, y <= t, Select(M, t) == 0) for b, t in s.terms(ex)]), 'precondition')
            for b, t in s.terms(ex): ex.assume(Implies(And(b <= y, y <= t), y + L <= t))
            ex.assume(Or(m > 0, And(L >= 0, Select(M, y + L) == 0, forall(['c'], lambda c: Implies(And(y <= c, c < y + L), Select(M, c) != 0), lambda c: [Select(M, c)]))))
        ex.oblige('the pattern is readable', Or(m == 0, *s.readable(ex, y, m)), 'precondition')
        P = fresh('plen', I); ex.assume(P == If(m > 0, m, L)); ex.S.x['P'] = P
        s.absent = lambda ex, lo, hi: ex.assume(forall(['c'], lambda c: Implies(And(q + lo <= c, c < q + hi), Not(MATCH(M, c, y, P))), lambda c: [MATCH(M, c, y, P)]))
        return s.found(ex, st, n - P, lambda r: MATCH(M, q + r, y, P))
    def h_findc(s, ex, a, ins):
        i, q, n = s.obj(ex, a[0]); ch, st = a[1], a[2]; M = s.content(ex)
        s.absent = lambda ex, lo, hi: ex.assume(forall(['c'], lambda c: Implies(And(q + lo <= c, c < q + hi), Select(M, c) != ch), lambda c: [Select(M, c)]))
        return s.found(ex, st, n - 1, lambda r: Select(M, q + r) == ch)
    def h_splice(s, ex, a, ins):
        i, q, n = s.obj(ex, a[0]); pos, ln, src, R = a[1], a[2], a[3].addr(), a[4]
        ex.oblige('the replaced range lies inside the text', pos + ln <= n, 'precondition')
        ex.oblige('the replacement is readable, and not part of this string', And(Or(R == 0, *s.readable(ex, src, R)), s.outside(ex, src, R, q)), 'precondition')
        s.on_splice(ex, i, q, n, pos, ln, src, R)
        M = s.content(ex); f = lambda k: If(k < pos, Select(M, q + k), If(k < pos + R, Select(M, src + k - pos), Select(M, q + k - R + ln)))
        s.become(ex, i, n - ln + R, f); return a[0]
    def on_splice(s, ex, *a): pass
    def become(s, ex, i, n2, f):
        """string i gets a text of n2 characters f: its buffer is kept, or replaced by a fresh block"""
        g = ex.S.ghost; q, n, cap = s.qn(ex, i); M = s.content(ex); q2, z, cap2 = fresh('new', I), fresh('bsize', I), fresh('cap', I); m = s.R(ex, i, 'malloc')
        ex.assume(And(q2 > 0, q2 < TOP, cap2 >= n2 + 1, z >= cap2, z < CAP * 4)); ex.assume(Or(And(q2 == q, z == Select(g['bsize'], q)), And(q2 != q, Not(Select(g['alive'], q2)))))
        for b in s.blocks(ex): ex.assume(Or(b == q, b == 0, Not(Select(g['alive'], b)), q2 + z <= b, b + Select(g['bsize'], b) <= q2))
        s.src_fresh(ex, q2, z)
        r = within(q2, n2); old = within(q, Select(g['bsize'], q)); new = within(q2, z); A = fresh('mem', AI)
        ex.assume(forall(['c'], lambda c: And(Implies(r(c), Select(A, c) == f(c - q2)), Implies(c == q2 + n2, Select(A, c) == 0), Or(old(c), new(c), Select(A, c) == Select(M, c))), lambda c: [Select(A, c)]))
        s.setcontent(ex, A)
        ex.setg('alive', Store(Store(g['alive'], q, BoolVal(False)), q2, BoolVal(True))); ex.setg('bsize', Store(g['bsize'], q2, z)); ex.setg('own', Store(g['own'], q2, m))
        for fl, v in (('buffer', q2), ('cap', cap2), ('count', n2 + 1)):
            k = s.unit.fields['Str.' + fl]; ex.S.mem[k] = Store(ex.mem(k), s.a[i], v); ex.S.written.add(k)
        ex.S.x['blks'] = ex.S.x['blks'] + [q2]
    # ---- formatting: snprintf writes at most n-1 characters of the text and a terminator, and returns the length of the text
    def fmt(s, name, args):
        return Function('FMT' + name, *[a.sort() for a in args], I)(*args)
    def h_snprintf(s, ex, a, ins):
        d, n, f = a[0].addr(), a[1], a[2].addr()
        name = s.fmts.get(f.as_long()) if is_int_value(f) else None
        vs = [x.addr() if isinstance(x, Ptr) else x for x in a[3:]]
        if name is not None:
            ok = name in NARG and len(ins.args) == 4 and repr(ins.args[3][0]) == NARG[name]
            ex.oblige('the format "%s" agrees with its argument' % name, BoolVal(ok), 'precondition'); t = s.fmt(name, vs)
            ex.assume(FLEN(t) < 1024)        # longest: %f of a double, 317 characters
        else: t = s.fmt('dyn%d' % len(vs), [f] + vs)
        w = FLEN(t); ex.assume(And(w >= 0, w < (1 << 31) - 1)); z = If(w < n - 1, w, n - 1)
        ex.assume(forall(['k'], lambda k: And(FCH(t, k) >= 0, FCH(t, k) < 256), lambda k: [FCH(t, k)]))
        ex.oblige('the format buffer is large enough', Or(n == 0, *s.writable(ex, d, n)), 'memory')
        s.write(ex, d, If(n > 0, z + 1, 0), lambda M, c: If(c == d + z, IntVal(0), FCH(t, c - d)), 'format')
        return w
    def h_add(s, ex, a, ins): raise Unsupported('array add')
    def callee(s, ex, dem, name):
        m = re.search(r'PlatformStrings::(\w+)\(', dem)
        if m: return getattr(s, 'h_' + m.group(1))
        if name in ('memcmp', 'snprintf'): return getattr(s, 'h_' + name)
        if re.search(r'StringBase<char>::findIndex\(char const\*,', dem): return s.h_findC
        if re.search(r'StringBase<char>::findIndex\(char,', dem): return s.h_findc
        if re.search(r'StringBase<char>::splice\(', dem): return s.h_splice
        if re.search(r'Array<.*>::add[<(]', dem): return s.h_add
        return super().callee(ex, dem, name)
    # ---- loops
    def marks(s, ex): return ()
    def inv(s, ex, L):
        yield from AS.inv(s, ex, L)
        O = [('%d' % i, s.a[i]) for i, k in enumerate(s.args_) if k in 'ad'] + [('tmp%' + k, IntVal(-(n * 4096) - 64)) for k, n in sorted(ex.S.allocas.items()) if k in s.tmps]
        rd = lambda f, p, S=None: s.rd(ex, 'Str.' + f, p, S)
        for nm, p in O:
            if nm[0] == 't':
                v, v0 = rd('cap', p), rd('cap', p, L.entry)
                if not v.eq(v0): yield 'cap %s unchanged' % nm, v == v0; yield 'cap %s sane' % nm, And(v > 0, v < (1 << 53), v >= v0)
        K = []
        for r, v, w in L.iphis:
            if w > 1: K.append((r, v))
        for r, v in L.pphis:
            for i, k in enumerate(s.args_):
                if k in 'sr': K.append(('%s-s%d' % (r, i), v.addr() - s.a[i]))
                if k == 'a': K.append(('%s-q%d' % (r, i), v.addr() - s.R(ex, i, 'buffer', L.entry)))
        for x, (nm, k) in enumerate(K):
            for nm2, k2 in K[:x]: yield '%s = %s' % (nm, nm2), k == k2
        for nm, k in K:
            yield '%s >= 0' % nm, k >= 0
            for mn, lo, hi in s.marks(ex):
                yield '%s >= start of %s' % (nm, mn), k >= lo
                yield '%s <= %s' % (nm, mn), k <= hi
            for i, a in enumerate(s.args_):
                if a in 'ad': yield '%s <= length of %d' % (nm, i), k < s.R(ex, i, 'count')
                if a == 'i': yield '%s <= arg %d' % (nm, i), k <= s.a[i]
        M, M0 = s.content(ex), s.content(ex, L.entry)
        if M is not M0:
            for nm, p in O:
                q, n = rd('buffer', p), rd('count', p); r = within(q, n)
                yield 'only %s is written' % nm, forall(['c'], lambda c: Or(r(c), Select(M, c) == Select(M0, c)), lambda c: [Select(M, c)])
                for kn, k in K:
                    yield '%s: from %s on as before' % (nm, kn), forall(['c'], lambda c: Or(And(q <= c, c < q + k), Select(M, c) == Select(M0, c)), lambda c: [Select(M, c)])
                    for fn, f in s.fills: yield '%s: %s up to %s' % (nm, fn, kn), forall(['c'], lambda c: Implies(And(q <= c, c < q + k), Select(M, c) == f(s, Select(M0, c))), lambda c: [Select(M, c)])
    def outer(s, ex, c): return [c > 0]
    # ---- vocabulary of the postconditions
    def text(s, ex, i, n, f):
        q, c_, cap = s.qn(ex, i); M = s.content(ex)
        s.ens(ex, 'string %d: length' % i, c_ == n + 1)
        s.ens(ex, 'string %d: characters' % i, forall(['c'], lambda c: Implies(And(q <= c, c < q + n), Select(M, c) == f(c - q)), lambda c: [Select(M, c)]))
    def src(s, ex, i):
        """text of argument i at entry: function and length"""
        M0 = s.content(ex, ex.S0)
        if s.args_[i] == 'a':
            q, n, _ = s.qn(ex, i, ex.S0); return (lambda k: Select(M0, q + k)), n - 1
        if s.args_[i] == 'c': return (lambda k: s.a[i]), IntVal(1)
        return (lambda k: Select(M0, s.a[i] + k)), s.n[i]
    def retself(s, ex, ret):
        if ret is not None: s.ens(ex, 'returns the string', ret.addr() == s.a[0])
    def base(s, ex, i, S=None): return s.R(ex, i, 'buffer', S) if s.args_[i] == 'a' else s.a[i]

class FA(ST):
    """findAll: every match is added, in order.  Ghost `done` is the first position not yet accounted for."""
    texts = True
    def pre(s, ex):
        M = ex.mem(R8); q, n, _ = s.qn(ex, 1)
        if s.args_[2] == 'c': s.hit = lambda M, c: Select(M, c) == s.a[2]; s.P = IntVal(1)
        else:
            y = s.base(ex, 2); s.P = s.src0(ex, 2); s.hit = lambda M, c: MATCH(M, c, y, s.P)
    def absent_in(s, ex, lo, hi):
        q = s.R(ex, 1, 'buffer'); M = s.content(ex)
        return forall(['c'], lambda c: Implies(And(q + lo <= c, c < q + hi), Not(s.hit(M, c))), lambda c: [Select(M, c) if s.args_[2] == 'c' else s.hit(M, c)])
    def h_findC(s, ex, a, ins):
        r = ST.h_findC(s, ex, a, ins); ex.oblige('the pattern searched for is the argument', And(a[1].addr() == s.base(ex, 2), ex.S.x['P'] == s.P), 'precondition'); ex.assume(ex.S.x['P'] == s.P)
        M, q = s.content(ex), s.R(ex, 1, 'buffer'); P = ex.S.x['P']; ex.assume(forall(['c'], lambda c: MATCH(M, c, s.base(ex, 2), P) == MATCH(M, c, s.base(ex, 2), s.P), lambda c: [MATCH(M, c, s.base(ex, 2), P)]))
        ex.assume(forall(['c'], lambda c: MATCH(M, c, s.base(ex, 2), P) == MATCH(M, c, s.base(ex, 2), s.P), lambda c: [MATCH(M, c, s.base(ex, 2), s.P)])); return r
    def h_add(s, ex, a, ins):
        """contract of Array<sizet>::add (C06): the value becomes the last element"""
        k = s.unit.fields.get('x') ; v = ex.load(a[1], IntT(64), None); g = ex.S.ghost; q, n = s.R(ex, 1, 'buffer'), s.R(ex, 1, 'count') - 1; M = s.content(ex)
        ex.oblige('positions are added to the result', a[0].addr() == s.a[0], 'precondition')
        ex.oblige('an added position is a match after those already added', And(v >= g['done'], v + s.P <= n, s.hit(M, q + v)), 'precondition')
        ex.oblige('no match is skipped', s.absent_in(ex, g['done'], v), 'precondition')
        ex.setg('done', v + 1); return a[1]
    def inv(s, ex, L):
        for r, v, w in L.iphis:
            if w == 64: yield 'all matches before %s were added' % r, v == ex.S.ghost['done']; yield '%s bounded' % r, v <= s.R(ex, 1, 'count')
    def valid(s, ex, p, key, idx, size, how):
        if key == ('raw', 'i64') and p.addr().eq(s.a[0]): return None
        return ST.valid(s, ex, p, key, idx, size, how)
    def spec(s, ex, ret):
        g = ex.S.ghost; n = s.R(ex, 1, 'count') - 1
        s.ens(ex, 'no match is left out', s.absent_in(ex, g['done'], n - s.P + 1))

class RA(ST):
    """replaceAll: each step replaces the first match at or after `done`, the end of the text already rewritten"""
    texts = True
    def pre(s, ex): s.P, s.Q = s.src0(ex, 1), s.src0(ex, 2); s.y, s.z = s.base(ex, 1), s.base(ex, 2)
    def absent_in(s, ex, lo, hi):
        q = s.R(ex, 0, 'buffer'); M = s.content(ex)
        return forall(['c'], lambda c: Implies(And(q + lo <= c, c < q + hi), Not(MATCH(M, c, s.y, s.P))), lambda c: [MATCH(M, c, s.y, s.P)])
    def h_findC(s, ex, a, ins):
        ex.oblige('the pattern searched for is the argument', And(a[1].addr() == s.y, a[2] == ex.S.ghost['done'], Or(a[3] == s.P, And(a[3] == 0, s.P == 0))), 'precondition')
        r = ST.h_findC(s, ex, (a[0], Ptr(s.y), a[2], s.P), ins); return r
    def on_splice(s, ex, i, q, n, pos, ln, src, R):
        g = ex.S.ghost; M = s.content(ex)
        ex.oblige('exactly a match of the pattern is replaced', And(BoolVal(i == 0), ln == s.P, pos + ln <= n, MATCH(M, q + pos, s.y, s.P)), 'precondition')
        ex.oblige('matches are replaced left to right, none inside a replacement', pos >= g['done'], 'precondition')
        ex.oblige('no match is skipped', s.absent_in(ex, g['done'], pos), 'precondition')
        ex.oblige('the replacement is the argument', And(src == s.z, R == s.Q), 'precondition')
        ex.setg('done', pos + R)
    def havoc_hook(s, ex, L):
        q = s.R(ex, 0, 'buffer'); ex.S.x['blks'] = ex.S.x['blks'] + [q]
    def state(s, ex, S=None):
        S = S or ex.S; g, g0 = S.ghost, s.g0; q, q0 = s.R(ex, 0, 'buffer', S), s.R(ex, 0, 'buffer', s.S00); M, M0 = s.content(ex, S), s.content(ex, s.S00)
        for nm, f in s.AI(ex, 0, S): yield 'the string: ' + nm, f
        yield 'sizes stay sane', And(s.R(ex, 0, 'count', S) < CAP * 4, s.R(ex, 0, 'cap', S) < CAP * 4, q < TOP, Select(g['bsize'], q) < CAP * 4)
        yield 'a new buffer is fresh', Or(q == q0, Not(Select(g0['alive'], q)))
        yield 'keeps its allocator', s.R(ex, 0, 'malloc', S) == s.R(ex, 0, 'malloc', s.S00)
        yield 'exactly its buffer is exchanged', forall(['x'], lambda x: Select(g['alive'], x) == Or(And(Select(g0['alive'], x), x != q0), x == q), lambda x: [Select(g['alive'], x)])
        for i in (1, 2):
            b = s.base(ex, i, s.S00); z = Select(g0['bsize'], b)
            for f in ('buffer', 'count', 'cap', 'malloc'): yield 'argument %d: %s unchanged' % (i, f), s.R(ex, i, f, S) == s.R(ex, i, f, s.S00)
            yield 'argument %d: block unchanged' % i, And(Select(g['bsize'], b) == z, Select(g['own'], b) == Select(g0['own'], b), Or(q + Select(g['bsize'], q) <= b, b + z <= q))
            yield 'argument %d: text unchanged' % i, forall(['c'], lambda c: Implies(And(b <= c, c < b + z), Select(M, c) == Select(M0, c)), lambda c: [Select(M, c)])
        for k, w in s.consts: yield 'constant %d' % k.as_long(), And(*[Select(M, k + j) == Select(M0, k + j) for j in range(w)])
    def inv(s, ex, L):
        s.S00 = L.entry; s.g0 = L.entry.ghost
        yield from s.state(ex)
        for r, v, w in L.iphis:
            if w == 64: yield 'rewritten up to %s' % r, v == ex.S.ghost['done']; yield '%s in the text' % r, v < s.R(ex, 0, 'count')
    def post(s, ex, ret):
        s.S00 = ex.S0; s.g0 = ex.S0.ghost; s.retself(ex, ret)
        for nm, f in s.state(ex): s.ens(ex, nm, f)
        n = s.R(ex, 0, 'count') - 1
        if ex.entails(s.P == 0): s.text(ex, 0, s.src(ex, 0)[1], s.src(ex, 0)[0])
        else: s.ens(ex, 'no match is left', Implies(s.P > 0, s.absent_in(ex, ex.S.ghost['done'], n - s.P + 1)))

def contracts(u):
    C = {}
    def d(n, args, spec, cls=ST, **kw):
        C[n] = type('T_' + n, (cls,), dict(args_=args, spec=spec, **kw))(n, u)
    Z = lambda k: IntVal(0)
    def isempty(s, ex, ret): s.text(ex, 0, 0, Z)
    d('str_ctor', 'd', isempty); d('str_ctorN', 'di', lambda s, ex, ret: (isempty(s, ex, ret), s.ens(ex, 'capacity as requested', s.R(ex, 0, 'cap') >= s.a[1])))
    FILLS = (('the fill character', lambda s, m: s.a[2]),)
    d('str_fill', 'dic', lambda s, ex, ret: s.text(ex, 0, s.a[1], lambda k: s.a[2]), fills=FILLS)
    def from_(i):
        def f(s, ex, ret):
            g, n = s.src(ex, i); s.text(ex, 0, n, g); s.retself(ex, ret)
            if s.args_[i] == 'a': s.text(ex, i, n, g)
        return f
    d('str_ctorB', 'dri', from_(1), pre=lambda s, ex: ex.assume(s.n[1] == s.a[2])); d('str_ctorC', 'ds', from_(1))
    d('str_copy', 'da', from_(1)); d('str_assign', 'aa', from_(1)); d('str_assignC', 'as', from_(1)); d('str_assign_self', 'a', from_(0)); d('str_move', 'da', lambda s, ex, ret: s.text(ex, 0, s.src(ex, 1)[1], s.src(ex, 1)[0])); d('str_massign', 'aa', lambda s, ex, ret: (s.text(ex, 0, s.src(ex, 1)[1], s.src(ex, 1)[0]), s.retself(ex, ret)))
    d('str_dtor', 'a', lambda s, ex, ret: None, dead=(0,))
    def val(g):
        def f(s, ex, ret):
            s.ens(ex, 'result', g(s, ex, ret))
            for i, k in enumerate(s.args_):
                if k == 'a': s.text(ex, i, s.src(ex, i)[1], s.src(ex, i)[0])
        return f
    for n in ('getLength', 'getSize', 'getLen'): d('str_' + n, 'a', val(lambda s, ex, r: r == s.R(ex, 0, 'count', ex.S0) - 1))
    for n in ('data', 'cdata', 'getData', 'getBuffer'): d('str_' + n, 'a', val(lambda s, ex, r: r.addr() == s.R(ex, 0, 'buffer', ex.S0)))
    for n in ('idx', 'cidx', 'getAt'): d('str_' + n, 'ai', val(lambda s, ex, r: r.addr() == s.R(ex, 0, 'buffer', ex.S0) + s.a[1]), pre=lambda s, ex: ex.assume(s.a[1] < s.R(ex, 0, 'count')))
    # ---- comparison: K is the position of the first difference (the terminators count as characters)
    EQ = lambda a, b: a == b
    def preK(eq):
        def f(s, ex):
            s.K = K = Int('firstdiff'); M = s.content(ex); x, y = s.base(ex, 0), s.base(ex, 1)
            n = [s.src0(ex, i) for i in (0, 1)]
            ex.assume(And(0 <= K, K <= n[0], K <= n[1], Or(Not(eq(Select(M, x + K), Select(M, y + K))), And(K == n[0], K == n[1]))))
            ex.assume(forall(['c'], lambda c: Implies(And(x <= c, c < x + K), eq(Select(M, c), Select(M, c - x + y))), lambda c: [Select(M, c)]))
            for t in (x, y): ex.assume(And(Select(M, t + K) >= 0, Select(M, t + K) < 256))
        return f
    def src0(s, ex, i): return s.R(ex, i, 'count') - 1 if s.args_[i] == 'a' else s.n[i]
    ST.src0 = src0
    marksK = lambda s, ex: [('K', 0, s.K)]
    def at(s, ex):
        M0 = s.content(ex, ex.S0); return Select(M0, s.base(ex, 0, ex.S0) + s.K), Select(M0, s.base(ex, 1, ex.S0) + s.K)
    def cmpr(eq): return val(lambda s, ex, r: r == (lambda X, Y: If(eq(X, Y), IntVal(0), i32(sg(X) - sg(Y))))(*at(s, ex)))
    for n, eq in (('cmp', EQ), ('icmp', CEQ)):
        for m, args in (('str_' + n, 'aa'), ('str_' + n + 'C', 'as')) + tuple((x, 'ss') for x in u.find(r'PlatformStrings::%s\(' % n)):
            d(m, args, cmpr(eq), pre=preK(eq), marks=marksK, texts=True, cost=9 if n == 'icmp' else 1)
    for n, op in (('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b), ('lt', lambda a, b: a < b), ('gt', lambda a, b: a > b), ('le', lambda a, b: a <= b), ('ge', lambda a, b: a >= b)):
        for m, args in (('', 'aa'), ('C', 'as')):
            d('str_' + n + m, args, val(lambda s, ex, r, op=op: r == op(*map(sg, at(s, ex)))), pre=preK(EQ), marks=marksK, texts=True)
    def preN(eq, off):
        def f(s, ex):
            s.K = K = Int('firstdiff'); M = s.content(ex); n = s.a[2]; o = s.a[3] if off else IntVal(0); x, y = s.a[0] + o, s.a[1] + o; s.x, s.y = x, y
            ex.assume(And(s.n[0] >= o + n, s.n[1] >= o + n, 0 <= K, K <= n, Or(K == n, Not(eq(Select(M, x + K), Select(M, y + K))))))
            ex.assume(forall(['c'], lambda c: Implies(And(x <= c, c < x + K), eq(Select(M, c), Select(M, c - x + y))), lambda c: [Select(M, c)]))
            for t in (x, y): ex.assume(And(Select(M, t + K) >= 0, Select(M, t + K) < 256))
        return f
    def cmpnr(s, ex, r): M0 = s.content(ex, ex.S0); return r == If(s.K == s.a[2], IntVal(0), i32(sg(Select(M0, s.x + s.K)) - sg(Select(M0, s.y + s.K))))
    for n, eq in (('cmpn', EQ), ('icmpn', CEQ)):
        mk = lambda s, ex: [('K', s.a[3] if len(s.a) > 3 else 0, s.K + (s.a[3] if len(s.a) > 3 else 0))]
        for m in ['pls_' + n] + u.find(r'PlatformStrings::%s\(' % n): d(m, 'rrii', val(cmpnr), pre=preN(eq, True), marks=mk)
        d('pls_' + n + '0', 'rri', val(cmpnr), pre=preN(eq, False), marks=mk)
    for m in u.find(r'PlatformStrings::getLength\('): d(m, 's', val(lambda s, ex, r: r == s.n[0]), marks=lambda s, ex: [('len', 0, s.n[0])])
    # ---- append, concatenate
    def cat(*parts):
        def f(s, ex, ret):
            P = [p(s, ex) for p in parts]; n = IntVal(0); cuts = []
            for g, m in P: cuts.append((n, g)); n = n + m
            def el(k):
                r = cuts[-1][1](k - cuts[-1][0])
                for j in range(len(cuts) - 2, -1, -1): r = If(k < cuts[j + 1][0], cuts[j][1](k - cuts[j][0]), r)
                return r
            s.text(ex, 0, n, el); s.retself(ex, ret)
            for i, k in enumerate(s.args_):
                if k == 'a' and i > 0: s.text(ex, i, s.src(ex, i)[1], s.src(ex, i)[0])
        return f
    arg = lambda i: (lambda s, ex: s.src(ex, i))
    def num(fm, i, cv=lambda v: v):
        def f(s, ex):
            t = s.fmt(fm, [cv(s.a[i])]); return (lambda k: FCH(t, k)), FLEN(t)
        return f
    d('str_addc', 'ac', cat(arg(0), arg(1))); d('str_addC', 'as', cat(arg(0), arg(1))); d('str_addS', 'aa', cat(arg(0), arg(1))); d('str_addself', 'a', cat(arg(0), arg(0)))
    def preOwn(s, ex):
        q, n, _ = s.qn(ex, 0); M = s.content(ex); s.z = z = Int('sufflen'); i = s.a[1]
        ex.assume(And(i < n, z >= 0, i + z < n, Select(M, q + i + z) == 0)); ex.assume(forall(['c'], lambda c: Implies(And(q + i <= c, c < q + i + z), Select(M, c) != 0), lambda c: [Select(M, c)]))
    d('str_addown', 'ai', cat(arg(0), lambda s, ex: ((lambda k: s.src(ex, 0)[0](k + s.a[1])), s.z)), pre=preOwn)
    ext = lambda v: Function('fpext_%r_%r' % (FloatT('float'), FloatT('double')), v.sort(), _vc.FSORT['double'])(v)
    NUMS = (('i32', '%d', lambda v: v), ('i64', '%lld', lambda v: v), ('u32', '%u', lambda v: v), ('u64', '%llu', lambda v: v), ('f32', '%f', ext), ('f64', '%f', lambda v: v))
    for n, fm, cv in NUMS:
        d('str_add' + n, 'av', cat(arg(0), num(fm, 1, cv))); d('str_prt' + n, 'av', cat(num(fm, 1, cv)))
    d('str_plusc', 'dac', cat(arg(1), arg(2))); d('str_plusC', 'das', cat(arg(1), arg(2))); d('str_plusS', 'daa', cat(arg(1), arg(2))); d('str_plusi32', 'dav', cat(arg(1), num('%d', 2)))
    ZF = (('zero', lambda s, m: IntVal(0)),)
    def dyn(s, ex):
        t = s.fmt('dyn%d' % (len(s.a) - 2), s.a[1:]); return (lambda k: FCH(t, k)), FLEN(t)
    d('str_format0', 'df', cat(dyn), fills=ZF); d('str_format2', 'dfvv', cat(dyn), fills=ZF)
    d('str_substr', 'daii', cat(lambda s, ex: ((lambda k: s.src(ex, 1)[0](k + s.a[3])), s.a[2])), pre=lambda s, ex: ex.assume(s.a[3] + s.a[2] < s.R(ex, 1, 'count')))
    # ---- splice
    def splice(r):
        def f(s, ex, ret):
            g, n = s.src(ex, 0); h, m = r(s, ex); p, l = s.a[1], s.a[2]
            s.text(ex, 0, n - l + m, lambda k: If(k < p, g(k), If(k < p + m, h(k - p), g(k - m + l)))); s.retself(ex, ret)
        return f
    inr = lambda s, ex: ex.assume(s.a[1] + s.a[2] < s.R(ex, 0, 'count'))
    d('str_spliceS', 'aiia', splice(arg(3)), pre=inr); d('str_spliceC', 'aiis', splice(arg(3)), pre=inr)
    for m in u.find(KEEP[2]): d(m, 'aiiri', splice(arg(3)), pre=lambda s, ex: (inr(s, ex), ex.assume(s.n[3] == s.a[4])))
    for m in u.find(r'StringBase<char>::splice\(.*StringBase'): C.pop(m, None)
    # ---- search: F is the first match at or after the start
    def preF(pat):
        def f(s, ex):
            q, n, _ = s.qn(ex, 0); n = n - 1; M = s.content(ex); y, P, hit = pat(s, ex, M); st = s.a[2]; s.F = F = Int('firstmatch'); s.hi = n - P
            H = lambda c: hit(c) if y is None else MATCH(M, c, y, P)
            ex.assume(And(F >= st, Or(F > n - P, H(q + F)))); ex.assume(forall(['c'], lambda c: Implies(And(q + st <= c, c < q + F, c <= q + n - P), Not(H(c))), lambda c: [H(c) if y is not None else Select(M, c)]))
            ex.assume(F < CAP * 4); ex.assume(Or(F <= n - P, F == If(st > n - P, st, n - P + 1)))
        return f
    fres = val(lambda s, ex, r: r == If(s.F <= s.hi, s.F, IntVal((1 << 64) - 1)))
    mF = lambda s, ex: [('F', s.a[2], s.F)]
    pc = lambda s, ex, M: (s.a[1], s.n[1], None)
    d('str_findC', 'asi', fres, pre=preF(pc), marks=mF)
    for m, k in [('str_findCn', 'ari')] + [(m, 'ari') for m in u.find(r'findIndex\(char const\*,')]:
        d(m, 'arii', fres, pre=lambda s, ex: (ex.assume(And(s.a[3] > 0, s.n[1] == s.a[3])), preF(pc)(s, ex)), marks=mF)
    for m in u.find(r'findIndex\(char const\*,'):
        C[m + ' zero'] = type('T_find0', (ST,), dict(fname=m, args_='asii', spec=fres, pre=lambda s, ex: (ex.assume(s.a[3] == 0), preF(pc)(s, ex)), marks=mF))(m + ' zero', u)
    d('str_findS', 'aai', fres, pre=preF(lambda s, ex, M: (s.R(ex, 1, 'buffer'), s.R(ex, 1, 'count') - 1, None)), marks=mF, texts=True)
    cc = lambda s, ex, M: (None, IntVal(1), lambda c: Select(M, c) == s.a[1])
    for m in ['str_findc'] + u.find(r'findIndex\(char,'): d(m, 'aci', fres, pre=preF(cc), marks=mF)
    for m in 'SCc':
        d('str_findAll' + m, 'oa' + {'S': 'a', 'C': 's', 'c': 'c'}[m], FA.spec, cls=FA)
    d('str_replaceAll', 'aaa', None, cls=RA)
    for n, f in (('Lower', LOW), ('Upper', UP)):
        d('str_to' + n, 'da', (lambda f: lambda s, ex, ret: (s.text(ex, 0, s.src(ex, 1)[1], lambda k: f(s.src(ex, 1)[0](k))), s.text(ex, 1, s.src(ex, 1)[1], s.src(ex, 1)[0])))(f), fills=(('mapped', (lambda f: lambda s, m: f(m))(f)),))
    return C
