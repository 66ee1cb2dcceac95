"""Parser for the textual LLVM IR (LLVM 18) that the extraction step produces."""
import re

class Ty:
    __slots__ = ()
class IntT(Ty):
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def __repr__(s): return 'i%d' % s.n
class PtrT(Ty):
    def __repr__(s): return 'ptr'
class VoidT(Ty):
    def __repr__(s): return 'void'
class FloatT(Ty):
    __slots__ = ('k',)
    def __init__(s, k): s.k = k
    def __repr__(s): return s.k
class ArrT(Ty):
    __slots__ = ('n', 'e')
    def __init__(s, n, e): s.n = n; s.e = e
    def __repr__(s): return '[%d x %r]' % (s.n, s.e)
class VecT(Ty):
    __slots__ = ('n', 'e')
    def __init__(s, n, e): s.n = n; s.e = e
    def __repr__(s): return '<%d x %r>' % (s.n, s.e)
class StructT(Ty):
    __slots__ = ('name', 'fs', 'packed')
    def __init__(s, name, fs, packed=False): s.name = name; s.fs = fs; s.packed = packed
    def __repr__(s): return s.name or '{' + ', '.join(map(repr, s.fs or [])) + '}'
class FnT(Ty):
    def __repr__(s): return 'fn'
class MetaT(Ty):
    def __repr__(s): return 'metadata'

PTR = PtrT(); VOID = VoidT(); META = MetaT(); FN = FnT()

class Unsupported(Exception):
    pass

# operand kinds
class Reg:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def __repr__(s): return '%' + s.n
class CInt:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
    def __repr__(s): return str(s.v)
class CNull:
    def __repr__(s): return 'null'
class CUndef:
    def __repr__(s): return 'undef'
class CZero:
    def __repr__(s): return 'zeroinitializer'
class CFloat:
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    def __repr__(s): return s.t
class CGlobal:
    __slots__ = ('n',)
    def __init__(s, n): s.n = n
    def __repr__(s): return '@' + s.n
class CExpr:
    __slots__ = ('op', 'ty', 'args', 'extra')
    def __init__(s, op, ty, args, extra=None): s.op = op; s.ty = ty; s.args = args; s.extra = extra
class CAgg:
    __slots__ = ('elts',)
    def __init__(s, elts): s.elts = elts
class CStr:
    __slots__ = ('b',)
    def __init__(s, b): s.b = b

class AtomicOrd(str):
    """marks an atomic access; .order is its memory order"""
    def __new__(c, toks):
        o = [w for _, w in toks if w in ('unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')]
        s = str.__new__(c, 'atomic'); s.order = o[0] if o else '?'
        return s
class Inst:
    __slots__ = ('op', 'res', 'ty', 'args', 'x', 'tbaa', 'dbg', 'text')
    def __init__(s, op, res=None, ty=None, args=(), x=None):
        s.op = op; s.res = res; s.ty = ty; s.args = args; s.x = x; s.tbaa = None; s.dbg = None; s.text = ''
    def __repr__(s): return s.text

class Block:
    def __init__(s, name): s.name = name; s.insts = []; s.preds = []
class Func:
    def __init__(s, name): s.name = name; s.params = []; s.ret = VOID; s.blocks = {}; s.order = []; s.sub = None

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-\w$.]+))
 | (?P<glob>@(?:"[^"]*"|[-\w$.]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-\w$.]*))
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 | (?P<attr>\#\d+)
 | (?P<word>[A-Za-z_][\w.$-]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*:|^])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' : break
            if s[i:].lstrip().startswith(';'): break
            raise Unsupported('tokenize: ' + s[i:i+60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

ATTRS = set('''noundef nonnull noalias nocapture readonly readnone writeonly signext zeroext inreg returned
 immarg noinline nounwind dso_local local_unnamed_addr unnamed_addr nest swiftself swifterror allocptr allocalign noreturn
 dead_on_unwind writable nofree inalloca willreturn'''.split())
ATTRP = set('align dereferenceable dereferenceable_or_null sret byval byref elementtype preallocated nofpclass memory'.split())

class P:
    def __init__(s, mod, toks): s.m = mod; s.t = toks; s.i = 0
    def pk(s, k=0): return s.t[s.i+k] if s.i + k < len(s.t) else (None, None)
    def nx(s):
        r = s.t[s.i]; s.i += 1; return r
    def at(s, v): return s.i < len(s.t) and s.t[s.i][1] == v
    def eat(s, v):
        if s.at(v): s.i += 1; return True
        return False
    def need(s, v):
        if not s.eat(v): raise Unsupported('expected %s at %r' % (v, s.t[s.i:s.i+6]))
    def ty(s):
        k, v = s.nx()
        if k == 'word':
            if v == 'ptr':
                if s.at('addrspace'):
                    s.nx(); s.need('('); s.nx(); s.need(')')
                r = PTR
            elif v == 'void': r = VOID
            elif re.fullmatch(r'i\d+', v): r = IntT(int(v[1:]))
            elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128'): r = FloatT(v)
            elif v == 'metadata': return META
            elif v == 'label': r = VOID
            elif v == 'opaque': r = StructT('opaque', None)
            elif v == 'token': r = VOID
            else: raise Unsupported('type ' + v)
        elif k == 'loc':
            r = s.m.named(v[1:].strip('"'))
        elif v == '[':
            n = int(s.nx()[1]); s.need('x'); e = s.ty(); s.need(']'); r = ArrT(n, e)
        elif v == '{':
            fs = []
            while not s.eat('}'):
                fs.append(s.ty()); s.eat(',')
            r = StructT(None, fs)
        elif v == '<':
            if s.at('{'):
                s.nx(); fs = []
                while not s.eat('}'):
                    fs.append(s.ty()); s.eat(',')
                s.need('>'); r = StructT(None, fs, True)
            else:
                n = int(s.nx()[1]); s.need('x'); e = s.ty(); s.need('>'); r = VecT(n, e)
        else: raise Unsupported('type %r' % v)
        # function type
        if s.at('(') :
            d = 0
            while True:
                t = s.nx()[1]
                if t == '(': d += 1
                elif t == ')':
                    d -= 1
                    if d == 0: break
            return FnRet(r)
        return r
    def attrs(s):
        while True:
            k, v = s.pk()
            if k == 'word' and v in ATTRS: s.i += 1
            elif k == 'word' and v in ATTRP:
                s.i += 1
                if s.at('('):
                    d = 0
                    while True:
                        t = s.nx()[1]
                        if t == '(': d += 1
                        elif t == ')':
                            d -= 1
                            if d == 0: break
                else:
                    if s.pk()[0] == 'num': s.i += 1
            elif k == 'attr': s.i += 1
            elif k == 'str' : s.i += 1
            else: return
    def val(s, ty):
        k, v = s.nx()
        if k == 'loc': return Reg(v[1:].strip('"'))
        if k == 'glob': return CGlobal(v[1:].strip('"'))
        if k == 'num':
            if isinstance(ty, FloatT): return CFloat(v)
            return CInt(int(v))
        if k == 'hex':
            return CFloat(v)
        if k == 'word':
            if v == 'true': return CInt(1)
            if v == 'false': return CInt(0)
            if v == 'null': return CNull()
            if v in ('undef', 'poison'): return CUndef()
            if v == 'zeroinitializer': return CZero()
            if v == 'getelementptr':
                s.eat('inbounds'); s.eat('inrange')
                s.need('('); t = s.ty(); s.need(',')
                ops = []
                while True:
                    s.eat('inrange')
                    ot = s.ty(); ops.append((ot, s.val(ot)))
                    if not s.eat(','): break
                s.need(')')
                return CExpr('gep', t, ops)
            if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
                s.need('('); t = s.ty(); a = s.val(t); s.need('to'); t2 = s.ty(); s.need(')')
                return CExpr(v, t2, [(t, a)])
            if v in ('add', 'sub', 'mul', 'xor', 'shl', 'icmp'):
                while s.pk()[1] in ('nuw', 'nsw'): s.nx()
                ex = s.nx()[1] if v == 'icmp' else None
                s.need('('); t = s.ty(); a = s.val(t); s.need(','); t2 = s.ty(); b = s.val(t2); s.need(')')
                return CExpr(v, t, [(t, a), (t2, b)], ex)
        if k == 'str' and v.startswith('c'):
            b = v[2:-1]
            out = bytearray(); i = 0
            while i < len(b):
                if b[i] == '\\':
                    if b[i+1] == '\\': out.append(92); i += 2
                    else: out.append(int(b[i+1:i+3], 16)); i += 3
                else: out.append(ord(b[i])); i += 1
            return CStr(bytes(out))
        if v in ('{', '[', '<'):
            packed = False
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and s.at('{'):
                s.nx(); packed = True; close = '}'
            el = []
            while not s.eat(close):
                t = s.ty(); el.append((t, s.val(t))); s.eat(',')
            if packed: s.need('>')
            return CAgg(el)
        raise Unsupported('const %r' % (v,))

class FnRet(Ty):
    def __init__(s, r): s.r = r

def sizeof(t):
    if isinstance(t, IntT): return max(1, 1 << ((t.n + 7)//8 - 1).bit_length()) if t.n > 8 else 1
    if isinstance(t, PtrT): return 8
    if isinstance(t, FloatT): return {'float': 4, 'double': 8, 'half': 2, 'x86_fp80': 16, 'fp128': 16}[t.k]
    if isinstance(t, ArrT): return t.n * sizeof(t.e)
    if isinstance(t, VecT): return t.n * sizeof(t.e)
    if isinstance(t, StructT):
        o = 0
        for f in t.fs:
            a = 1 if t.packed else alignof(f)
            o = (o + a - 1)//a*a + sizeof(f)
        a = alignof(t)
        return (o + a - 1)//a*a
    raise Unsupported('sizeof %r' % t)
def alignof(t):
    if isinstance(t, (IntT, PtrT, FloatT)): return min(sizeof(t), 16)
    if isinstance(t, ArrT): return alignof(t.e)
    if isinstance(t, VecT): return sizeof(t)
    if isinstance(t, StructT):
        if t.packed or not t.fs: return 1
        return max(alignof(f) for f in t.fs)
    raise Unsupported('alignof %r' % t)
def field_off(t, i):
    o = 0
    for j, f in enumerate(t.fs):
        a = 1 if t.packed else alignof(f)
        o = (o + a - 1)//a*a
        if j == i: return o
        o += sizeof(f)
    raise Unsupported('field')

BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc ptrtoint inttoptr bitcast fptosi fptoui sitofp uitofp fpext fptrunc addrspacecast'.split())
FMF = set('fast nnan ninf nsz arcp contract afn reassoc nuw nsw exact disjoint nneg inbounds'.split())

class Module:
    def __init__(s, text):
        s.types = {}; s.funcs = {}; s.decls = set(); s.globals = {}; s.meta = {}
        s.parse(text)
    def named(s, n):
        if n not in s.types: s.types[n] = StructT(n, None)
        return s.types[n]
    def parse(s, text):
        lines = text.split('\n'); i = 0
        fl = []
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                p = P(s, tokenize(l)); nm = p.nx()[1][1:].strip('"'); p.need('='); p.nx()
                t = s.named(nm)
                if p.at('opaque'): t.fs = None
                else:
                    b = p.ty(); t.fs = b.fs; t.packed = b.packed
            elif l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                fl.append((i, j)); i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                if m: s.decls.add(m.group(1).strip('"'))
            elif l.startswith('@'):
                fl.append((i, i))
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?(.*)', l)
                if m: s.meta[m.group(1)] = m.group(2)
            i += 1
        for a, b in fl:
            if lines[a].startswith('@'): s.parse_global(lines[a])
            else: s.parse_func(lines[a:b+1])
    def parse_global(s, l):
        m = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)', l)
        name = m.group(1).strip('"'); rest = m.group(2)
        m2 = re.search(r'\b(global|constant)\b', rest)
        if not m2: return
        const = m2.group(1) == 'constant'
        ext = bool(re.search(r'\bexternal\b', rest[:m2.start()]))
        try:
            p = P(s, tokenize(rest[m2.end():]))
            t = p.ty(); init = None
            if not ext and p.pk()[1] not in (None, ','): init = p.val(t)
            s.globals[name] = (t, init, const)
        except Unsupported:
            s.globals[name] = (None, None, const)
    def parse_func(s, ls):
        h = ls[0]
        m = re.search(r'@("[^"]*"|[-\w$.]+)\(', h)
        f = Func(m.group(1).strip('"'))
        pre = re.sub(r'^define\s+', '', h[:m.start()])
        m1 = re.search(r'!dbg !(\d+)', h)
        if m1: f.sub = m1.group(1)
        try:
            p = P(s, tokenize(pre)); 
            while p.pk()[0] == 'word' and p.pk()[1] in ('weak_odr','linkonce_odr','dso_local','internal','private','hidden','weak','available_externally','noundef','zeroext','signext','nonnull','noalias','align','dereferenceable','dereferenceable_or_null','linkonce','protected','range'):
                w = p.nx()[1]
                if w in ('align',): p.nx()
                if w.startswith('deref'): p.need('('); p.nx(); p.need(')')
            f.ret = p.ty()
            # params
            d = 0; j = m.end() - 1; k = j
            while True:
                if h[k] == '(': d += 1
                elif h[k] == ')':
                    d -= 1
                    if d == 0: break
                k += 1
            p = P(s, tokenize(h[j+1:k]))
            while p.i < len(p.t):
                if p.at('...'): p.nx(); continue
                t = p.ty(); p.attrs(); n = p.nx()[1][1:].strip('"'); f.params.append((t, n)); p.eat(',')
            f.err = None
        except Unsupported as e:
            f.err = str(e)
        cur = Block(str(len(f.params))) if f.params or True else None
        # entry label: implicit number = count of unnamed params, unless explicit
        first = True; body = ls[1:-1]; joined = []
        k = 0
        while k < len(body):
            l = body[k]
            if re.match(r'\s+switch ', l):
                while not body[k].rstrip().startswith('  ]') and ']' not in body[k]:
                    k += 1; l += ' ' + body[k]
            elif l.rstrip().endswith('(') or (re.match(r'\s+.*\bcall\b', l) and l.count('(') > l.count(')')):
                while l.count('(') > l.count(')'):
                    k += 1; l += ' ' + body[k]
            joined.append(l); k += 1
        for l in joined:
            if not l.strip() or l.strip().startswith(';'): continue
            m = re.match(r'("[^"]*"|[-\w$.]+):', l)
            if m:
                nm = m.group(1).strip('"')
                if first and not cur.insts and not f.order:
                    cur = Block(nm)
                else: cur = Block(nm)
                f.blocks[nm] = cur; f.order.append(nm); first = False
                continue
            if not f.order:
                f.blocks[cur.name] = cur; f.order.append(cur.name); first = False
            try:
                ins = s.parse_inst(l.strip())
            except Unsupported as e:
                ins = Inst('unsupported', x=str(e))
            except Exception as e:
                ins = Inst('unsupported', x='parse: %s: %r' % (l.strip()[:100], e))
            ins.text = l.strip()
            mm = re.search(r'!tbaa !(\d+)', l)
            if mm: ins.tbaa = mm.group(1)
            mm = re.search(r'!dbg !(\d+)', l)
            if mm: ins.dbg = mm.group(1)
            cur.insts.append(ins)
        for b in f.blocks.values():
            for t in succs(b):
                f.blocks[t].preds.append(b.name)
        s.funcs[f.name] = f
    def parse_inst(s, l):
        l0 = l
        l = re.sub(r',\s*!\w[\w.]* !\d+', '', l)
        l = re.sub(r',\s*!srcloc.*$', '', l)
        p = P(s, tokenize(l))
        res = None
        if p.pk()[0] == 'loc' and p.pk(1)[1] == '=':
            res = p.nx()[1][1:].strip('"'); p.nx()
        op = p.nx()[1]
        if op in ('tail', 'musttail', 'notail'): op = p.nx()[1]
        flags = set()
        def fl():
            while p.pk()[1] in FMF: flags.add(p.nx()[1])
        if op in BIN:
            fl(); t = p.ty(); a = p.val(t); p.need(','); b = p.val(t)
            return Inst(op, res, t, [a, b], flags)
        if op == 'fneg':
            fl(); t = p.ty(); return Inst(op, res, t, [p.val(t)])
        if op in CAST:
            fl(); t = p.ty(); a = p.val(t); p.need('to'); t2 = p.ty()
            return Inst(op, res, t2, [a], t)
        if op in ('icmp', 'fcmp'):
            fl(); pr = p.nx()[1]; t = p.ty(); a = p.val(t); p.need(','); b = p.val(t)
            return Inst(op, res, t, [a, b], pr)
        if op == 'load':
            at = p.eat('atomic'); p.eat('volatile'); t = p.ty(); p.need(','); p.ty(); a = p.val(PTR)
            return Inst('load', res, t, [a], AtomicOrd(p.t[p.i:]) if at else None)
        if op == 'store':
            at = p.eat('atomic'); p.eat('volatile'); t = p.ty(); v = p.val(t); p.need(','); p.ty(); a = p.val(PTR)
            return Inst('store', None, t, [v, a], AtomicOrd(p.t[p.i:]) if at else None)
        if op == 'getelementptr':
            fl(); t = p.ty(); ops = []
            while p.eat(','):
                if p.pk()[1] and p.pk()[1].startswith('!'): break
                ot = p.ty(); ops.append((ot, p.val(ot)))
            return Inst('gep', res, t, ops)
        if op == 'phi':
            fl(); t = p.ty(); inc = []
            while True:
                p.need('['); v = p.val(t); p.need(','); b = p.nx()[1][1:].strip('"'); p.need(']'); inc.append((v, b))
                if not p.eat(','): break
            return Inst('phi', res, t, inc)
        if op == 'select':
            fl(); ct = p.ty(); c = p.val(ct); p.need(','); t = p.ty(); a = p.val(t); p.need(','); t2 = p.ty(); b = p.val(t2)
            return Inst('select', res, t, [c, a, b], ct)
        if op == 'br':
            if p.at('label'):
                p.nx(); return Inst('br', args=[p.nx()[1][1:].strip('"')])
            t = p.ty(); c = p.val(t); p.need(','); p.nx(); a = p.nx()[1][1:].strip('"'); p.need(','); p.nx(); b = p.nx()[1][1:].strip('"')
            return Inst('condbr', args=[c, a, b])
        if op == 'switch':
            t = p.ty(); v = p.val(t); p.need(','); p.nx(); d = p.nx()[1][1:].strip('"'); p.need('['); cs = []
            while not p.eat(']'):
                p.ty(); c = p.val(t); p.need(','); p.nx(); cs.append((c.v, p.nx()[1][1:].strip('"')))
            return Inst('switch', ty=t, args=[v, d, cs])
        if op == 'ret':
            t = p.ty()
            if isinstance(t, VoidT): return Inst('ret', ty=t, args=[])
            return Inst('ret', ty=t, args=[p.val(t)])
        if op == 'unreachable': return Inst('unreachable')
        if op == 'alloca':
            p.eat('inalloca'); t = p.ty(); n = None
            if p.eat(','):
                if p.pk()[0] == 'word' and re.fullmatch(r'i\d+', p.pk()[1]):
                    nt = p.ty(); n = p.val(nt)
            return Inst('alloca', res, t, [n])
        if op == 'extractvalue':
            t = p.ty(); a = p.val(t); ix = []
            while p.eat(','): ix.append(int(p.nx()[1]))
            return Inst(op, res, t, [a], ix)
        if op == 'insertvalue':
            t = p.ty(); a = p.val(t); p.need(','); t2 = p.ty(); b = p.val(t2); ix = []
            while p.eat(','): ix.append(int(p.nx()[1]))
            return Inst(op, res, t, [a, b], (ix, t2))
        if op == 'freeze':
            t = p.ty(); return Inst(op, res, t, [p.val(t)])
        if op == 'atomicrmw':
            p.eat('volatile'); o = p.nx()[1]; p.ty(); a = p.val(PTR); p.need(','); t = p.ty(); v = p.val(t)
            return Inst(op, res, t, [a, v], (o, p.t[p.i:]))
        if op == 'cmpxchg':
            wk = p.eat('weak'); p.eat('volatile'); p.ty(); a = p.val(PTR); p.need(','); t = p.ty(); c = p.val(t); p.need(','); p.ty(); n = p.val(t)
            return Inst(op, res, t, [a, c, n], (wk, p.t[p.i:]))
        if op == 'fence': return Inst('fence')
        if op in ('call', 'invoke'):
            fl()
            while p.pk()[1] in ('fastcc', 'ccc', 'coldcc'): p.nx()
            p.attrs()
            t = p.ty(); vararg = False
            if isinstance(t, FnRet): t = t.r; vararg = True
            if p.pk()[1] == 'asm':
                raise Unsupported('inline asm')
            callee = p.val(PTR)
            p.need('('); args = []
            while not p.eat(')'):
                at = p.ty()
                if isinstance(at, MetaT):
                    d = 0
                    while not (d == 0 and p.pk()[1] in (',', ')')):
                        q = p.nx()[1]
                        if q in '({[': d += 1
                        if q in ')}]': d -= 1
                    args.append((at, None))
                else:
                    p.attrs(); args.append((at, p.val(at)))
                p.eat(',')
            ins = Inst('call', res, t, args, callee)
            if op == 'invoke':
                while not p.at('to'): p.nx()
                p.nx(); p.nx(); nb = p.nx()[1][1:].strip('"')
                ins.op = 'invoke'; ins.x = (callee, nb)
            return ins
        if op in ('extractelement',):
            t = p.ty(); a = p.val(t); p.need(','); t2 = p.ty(); i = p.val(t2)
            return Inst(op, res, t, [a, i])
        if op in ('insertelement',):
            t = p.ty(); a = p.val(t); p.need(','); t1 = p.ty(); v = p.val(t1); p.need(','); t2 = p.ty(); i = p.val(t2)
            return Inst(op, res, t, [a, v, i])
        if op == 'shufflevector':
            t = p.ty(); a = p.val(t); p.need(','); t1 = p.ty(); b = p.val(t1); p.need(','); t2 = p.ty(); m = p.val(t2)
            if isinstance(m, CZero): ix = [0] * t2.n
            elif isinstance(m, CAgg): ix = [(e.v if isinstance(e, CInt) else -1) for _, e in m.elts]
            else: ix = [-1] * t2.n
            return Inst(op, res, VecT(t2.n, t.e), [a, b], (t, t1, ix))
        raise Unsupported('inst ' + op)

def succs(b):
    if not b.insts: return []
    t = b.insts[-1]
    if t.op == 'br': return [t.args[0]]
    if t.op == 'condbr': return [t.args[1], t.args[2]]
    if t.op == 'switch': return [t.args[1]] + [x[1] for x in t.args[2]]
    if t.op == 'invoke': return [t.x[1]]
    return []

def loops(f):
    """natural loop headers -> set of blocks; via dominators"""
    order = f.order; entry = order[0]
    # reverse postorder
    seen = set(); po = []
    st = [(entry, iter(succs(f.blocks[entry])))]; seen.add(entry)
    while st:
        b, it = st[-1]
        adv = False
        for x in it:
            if x not in seen:
                seen.add(x); st.append((x, iter(succs(f.blocks[x])))); adv = True; break
        if not adv: po.append(b); st.pop()
    rpo = po[::-1]; num = {b: i for i, b in enumerate(rpo)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [q for q in f.blocks[b].preds if q in idom]
            if not ps: continue
            n = ps[0]
            for q in ps[1:]:
                a, c = n, q
                while a != c:
                    while num[a] > num[c]: a = idom[a]
                    while num[c] > num[a]: c = idom[c]
                n = a
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == entry: return False
            b = idom[b]
    L = {}
    for b in rpo:
        for t in succs(f.blocks[b]):
            if t in num and num[t] <= num[b]:
                if not dom(t, b): raise Unsupported('irreducible loop')
                body = L.setdefault(t, {t}); stk = [b]
                while stk:
                    x = stk.pop()
                    if x not in body:
                        body.add(x); stk += f.blocks[x].preds
    return L

def parse_tbaa(mod):
    """meta id -> (base name, offset, access name) descended to innermost struct"""
    def node(i):
        t = mod.meta.get(i)
        return t
    cache = {}
    def members(i):
        t = node(i)
        m = re.match(r'!\{!"([^"]*)"(.*)\}$', t)
        if not m: return None
        rest = m.group(2)
        ms = [(a, int(b)) for a, b in re.findall(r'!(\d+), i64 (\d+)', rest)]
        return m.group(1), ms
    def resolve(i):
        if i in cache: return cache[i]
        t = node(i)
        m = re.match(r'!\{!(\d+), !(\d+), i64 (\d+)(?:, i64 \d+)?\}$', t or '')
        r = None
        if m:
            b, a, off = m.group(1), m.group(2), int(m.group(3))
            if b != a:
                cur = b; o = off; delta = 0
                while True:
                    nm, ms = members(cur)
                    best = None
                    for (mi, mo) in ms:
                        if mo <= o: best = (mi, mo)
                    if best is None or best[0] == a and best[1] == o or best[0] == cur: break
                    sub = members(best[0])
                    if not sub or not sub[1] or (len(sub[1]) == 1 and not sub[0].startswith('_ZTS')): break
                    delta += best[1]; o -= best[1]; cur = best[0]
                r = (members(cur)[0], o, members(a)[0])
            else:
                r = (None, 0, members(a)[0])
        cache[i] = r
        return r
    return resolve
