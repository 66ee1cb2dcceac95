"""Extraction: mirror /repo's headers into a scratch directory, compile one unit with clang to LLVM IR, inline every
function that has no contract of its own, and parse the result.  Runs afresh on every check."""
import os, re, subprocess, shutil, tempfile, atexit, hashlib
import ir
from ir import *

REPO = os.environ.get('KV_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None
_pid = os.getpid()
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='kv-')
        atexit.register(lambda: os.getpid() == _pid and shutil.rmtree(_scratch, ignore_errors=True))
        mirror(_scratch + '/inc')
    return _scratch

class BuildError(Exception):
    pass

def cut_concat(s):
    """clang rejects the member template Name::Concat (it uses the incomplete class Name; g++ accepts it).  It is cut from
    the mirrored copy, brace-balanced; nothing under contract uses it."""
    i = s.find('template<const Name & ...names>')
    if i < 0: return s
    j = s.find('{', i); d = 0; k = j
    while k < len(s):
        if s[k] == '{': d += 1
        if s[k] == '}':
            d -= 1
            if d == 0: break
        k += 1
    k = s.index(';', k) + 1
    return s[:i] + '\n' * s[i:k].count('\n') + s[k:]

def mirror(dst):
    shutil.copytree(REPO + '/src/korin/core/public', dst)
    p = dst + '/templates/name.h'
    if os.path.exists(p):
        s = open(p, encoding='utf8', errors='surrogateescape').read()
        open(p, 'w', encoding='utf8', errors='surrogateescape').write(cut_concat(s))

CLANG = ['clang++', '-std=gnu++17', '-DPLATFORM_LINUX=1', '-DBUILD_DEBUG', '-fno-access-control', '-O1', '-Xclang', '-disable-llvm-passes',
         '-fno-exceptions', '-fno-rtti', '-ffp-contract=off', '-w', '-S', '-emit-llvm', '-g']

def demangle(names):
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))

class Unit:
    def __init__(s, src, keep=(), passes=None, defs=(), repo_src=None):
        """src: file under /verif/units; keep: regexes over demangled names of functions that keep their own contract"""
        s.src = src
        d = scratch()
        base = os.path.splitext(os.path.basename(src))[0]
        ll = '%s/%s.ll' % (d, base)
        path = os.path.join(HERE, 'units', src) if not os.path.isabs(src) else src
        cmd = CLANG + ['-I' + d + '/inc', '-I' + os.path.join(HERE, 'units'), '-I' + REPO + '/src/korin/core/private'] + list(defs) + [path, '-o', ll]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise BuildError('clang: ' + r.stderr[:2000])
        s.cmd = ' '.join(cmd)
        txt = open(ll).read()
        # constructor aliases (C1 = C2) are replaced by their target
        al = dict(re.findall(r'^@("[^"]*"|[-\w$.]+) = (?:[a-z_]+ )*alias .*ptr @("[^"]*"|[-\w$.]+)$', txt, re.M))
        if al:
            txt = re.sub(r'^@("[^"]*"|[-\w$.]+) = (?:[a-z_]+ )*alias .*$', '', txt, flags=re.M)
            txt = re.sub(r'@("[^"]*"|[-\w$.]+)', lambda m: '@' + al.get(m.group(1), m.group(1)), txt)
        names = re.findall(r'^(?:define|declare).*?@("[^"]*"|[-\w$.]+)\(', txt, re.M)
        names = [n.strip('"') for n in names]
        s._dem = demangle(names)
        kp = [re.compile(k) for k in keep]
        s.kept = set()
        out = []
        for l in txt.split('\n'):
            if l.startswith('define'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l); n = m.group(1).strip('"')
                k = any(x.search(s._dem.get(n, n)) for x in kp)
                if k: s.kept.add(n)
                # insert attribute before the first '#N' after the parameter list
                j = l.rfind(') ')
                e = m.end() - 1; dd = 0
                while True:
                    if l[e] == '(': dd += 1
                    elif l[e] == ')':
                        dd -= 1
                        if dd == 0: break
                    e += 1
                rest = l[e+1:]
                rest = re.sub(r'^((?: local_unnamed_addr| unnamed_addr)?)', r'\1 ' + ('noinline' if k else 'alwaysinline'), rest, count=1)
                l = l[:e+1] + rest
            elif l.startswith('attributes #'):
                l = re.sub(r'\b(noinline|optnone|alwaysinline|inlinehint)\b ?', '', l)
            out.append(l)
        ll2 = ll[:-3] + '.2.ll'; open(ll2, 'w').write('\n'.join(out))
        ll3 = ll[:-3] + '.3.ll'
        passes = passes or 'always-inline,function(sroa,simplifycfg<no-switch-to-lookup;no-sink-common-insts>,sroa,loop-simplify,dce),globaldce'
        r = subprocess.run(['opt-18', '-S', '-passes=' + passes, ll2, '-o', ll3], capture_output=True, text=True)
        if r.returncode: raise BuildError('opt: ' + r.stderr[:2000])
        s.text = open(ll3).read()
        s.mod = Module(s.text)
        s.tbaa = ir.parse_tbaa(s.mod)
        s.globids = {}; s.rsort = {}; s.ptr_types = {}
        s.fields = {}; s.structs = {}; s.slots = {}
        names = set(s.mod.funcs) | s.mod.decls
        miss = [n for n in names if n not in s._dem]
        if miss: s._dem.update(demangle(miss))
        s._map_tbaa()
        s._probes()
    def dem(s, n): return s._dem.get(n, n)
    def fn(s, n): return s.mod.funcs.get(n)
    def sizeof(s, struct): return sizeof(s.mod.types[s.structs[struct]])
    def find(s, rx):
        return [n for n in s.mod.funcs if re.search(rx, s.dem(n))]
    def _leafof(s, st, off):
        t = st; d = 0
        while isinstance(t, StructT):
            f = None
            for i, ft in enumerate(t.fs or []):
                o = field_off(t, i)
                if o <= off < o + max(1, sizeof(ft)): f = (ft, o)
            if f is None: return None
            if isinstance(f[0], StructT): d += f[1]; off -= f[1]; t = f[0]; continue
            if isinstance(f[0], ArrT): return None
            return t.name, f[1], d, f[0]
        return None
    def _map_tbaa(s):
        """TBAA struct name -> LLVM struct name, learnt from accesses whose pointer is a typed GEP"""
        votes = {}
        for f in s.mod.funcs.values():
            geps = {}
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op == 'gep' and isinstance(i.ty, StructT) and len(i.args) >= 2 and all(isinstance(v, CInt) for _, v in i.args[1:]):
                        t = i.ty; off = 0
                        for _, v in i.args[2:]:
                            if not isinstance(t, StructT): t = None; break
                            off += field_off(t, v.v); t = t.fs[v.v]
                        if t is None: continue
                        # innermost struct
                        t2 = i.ty
                        lf = s._leafof(i.ty, off)
                        if lf: geps[i.res] = (lf[0], lf[1])
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op in ('load', 'store') and i.tbaa:
                        a = i.args[-1]
                        if isinstance(a, Reg) and a.n in geps:
                            tb = s.tbaa(i.tbaa)
                            if tb and tb[0] and tb[1] == geps[a.n][1]:
                                votes.setdefault(tb[0], {}).setdefault(geps[a.n][0], 0)
                                votes[tb[0]][geps[a.n][0]] += 1
        s.tbmap = {k: max(v, key=v.get) for k, v in votes.items()}
        # structs whose only accessed field is the first one: matched by name when that is unambiguous
        import collections
        stems = collections.defaultdict(set)
        for n in s.mod.types:
            m = re.match(r'(?:class|struct|union)\.(.*?)(?:\.\d+)?$', n)
            if m: stems[m.group(1)].add(n)
        bases = set()
        for f in s.mod.funcs.values():
            for b in f.blocks.values():
                for i in b.insts:
                    if i.tbaa and i.op in ('load', 'store'):
                        tb = s.tbaa(i.tbaa)
                        if tb and tb[0] and tb[0] not in s.tbmap: bases.add(tb[0])
        if bases:
            d = demangle(sorted(bases)); byst = collections.defaultdict(list)
            for b in bases:
                st = re.sub(r'^typeinfo name for ', '', d[b]); st = re.sub(r'<.*', '', st)
                byst[st].append(b)
            for st, bs in byst.items():
                if len(bs) == 1 and len(stems.get(st, ())) == 1: s.tbmap[bs[0]] = next(iter(stems[st]))
    def _probes(s):
        for n, f in s.mod.funcs.items():
            if n.startswith('S_'):
                for b in f.blocks.values():
                    for i in b.insts:
                        if i.op == 'gep' and isinstance(i.ty, StructT): s.structs[n[2:]] = i.ty.name
        for n, f in s.mod.funcs.items():
            if n.startswith('F_'):
                m = re.match(r'F_([A-Za-z0-9]+)_(\w+)$', n)
                if not m or m.group(1) not in s.structs: continue
                st = s.mod.types[s.structs[m.group(1)]]
                off = 0; t = None
                for b in f.blocks.values():
                    for i in b.insts:
                        if i.op == 'gep':
                            t = i.ty
                            if isinstance(t, StructT):
                                for _, v in i.args[2:]:
                                    off += field_off(t, v.v); t = t.fs[v.v]
                            else: off += i.args[1][1].v * sizeof(t)
                lf = s._leafof(st, off)
                if lf is None:
                    s.fields[m.group(1) + '.' + m.group(2)] = None; continue
                name, o, d, ft = lf
                s.fields[m.group(1) + '.' + m.group(2)] = (name, o)
                s.rsort[(name, o)] = ft
                s.delta = getattr(s, 'delta', {}); s.delta[m.group(1) + '.' + m.group(2)] = d
            if n.startswith('V_'):     # virtual slot probe
                for b in f.blocks.values():
                    for i in b.insts:
                        if i.op == 'gep': s.slots[n[2:]] = i.args[1][1].v
                        elif i.op == 'load' and n[2:] not in s.slots: s.slots[n[2:]] = 0
        import vc
        rs = {}
        for k, ft in s.rsort.items():
            if isinstance(ft, FloatT): rs[k] = vc.FSORT[ft.k]
            else: rs[k] = vc.I
        s.rsort = rs
    def kname(s, key):
        for n, k in s.fields.items():
            if k == key: return n
        return '%s+%s' % key if key[0] != 'raw' else key[1]
    def setptr(s, d):
        """declare the pointee struct of pointer fields: {'Link.next': 'Link'}"""
        for f, t in d.items():
            if f in s.fields and s.fields[f]: s.ptr_types[s.fields[f]] = s.structs[t]
    def struct_fields_cover(s, ex, d, src, n):
        """leaf fields of the struct that is being copied (identified by provenance), or None"""
        for p in (d, src):
            if p.prov:
                t = s.mod.types.get(p.prov[0])
                # find a struct of size n whose first leaf is this
                cands = [t] + [x for x in s.mod.types.values() if x.fs]
                for c in cands:
                    if c is None or not c.fs: continue
                    try:
                        if sizeof(c) != n and not (sizeof(c) > n >= s._used(c)): continue
                    except Unsupported: continue
                    lf = s._leafof(c, 0)
                    if lf and (lf[0], lf[1]) == p.prov and p.off == p.prov[1]:
                        return s._leaves(c, 0)
        return None
    def _used(s, t):
        i = len(t.fs) - 1
        return field_off(t, i) + sizeof(t.fs[i])
    def _leaves(s, t, base):
        out = []
        for i, f in enumerate(t.fs):
            o = field_off(t, i)
            if isinstance(f, StructT): out += s._leaves(f, base + o)
            elif isinstance(f, ArrT):
                return []
            else: out.append(((t.name, o), base, f))
        return out
    def loc(s, dbg):
        """file:line for a debug location id"""
        try:
            t = s.mod.meta.get(dbg, '')
            m = re.match(r'!DILocation\(line: (\d+).*?scope: !(\d+)', t)
            if not m: return ''
            line, sc = m.group(1), m.group(2)
            for _ in range(20):
                st = s.mod.meta.get(sc, '')
                mf = re.search(r'\bfile: !(\d+)', st)
                if mf:
                    ft = s.mod.meta.get(mf.group(1), '')
                    fn = re.search(r'filename: "([^"]*)"', ft)
                    return '%s:%s' % (os.path.basename(fn.group(1)) if fn else '?', line)
                ms = re.search(r'\bscope: !(\d+)', st)
                if not ms: break
                sc = ms.group(1)
        except Exception:
            pass
        return ''
