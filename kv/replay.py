"""Replay: concrete search for a failing input against the real code (g++, AddressSanitizer + UBSan)."""
import os, subprocess, time, tempfile, shutil, signal
import unit
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(name, seed, tier, mode='search', budget=None):
    t = time.time()
    budget = budget or (40 if tier == 'quick' else 300)
    d = unit.scratch(); exe = os.path.join(d, 'replay_' + name)
    src = os.path.join(ROOT, 'replay', name + '.cpp')
    R = unit.REPO
    head = open(src).read()
    extra = []
    std = 'gnu++17'
    for l in head.split('\n')[:12]:
        if l.startswith('// SOURCES:'): extra += [R + '/' + x for x in l.split(':', 1)[1].split()]
    opt = '-O0' if '// O0' in head[:600] else '-O1'
    san = [] if '// NOSAN' in head[:600] else ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr,alignment,null,nonnull-attribute']
    cmd = ['g++', '-std=' + std, opt, '-g', '-w', '-fno-access-control', '-DPLATFORM_LINUX=1', '-DBUILD_DEBUG', '-mavx2'] + san + \
          ['-I' + R + '/src/korin/core/public', '-I' + os.path.join(ROOT, 'replay'), src] + extra + ['-o', exe, '-lpthread']
    if not os.path.exists(exe):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return dict(name=name, ok=True, out='harness does not compile: ' + r.stderr[:500], wall=time.time() - t, cases=0)
    work = os.path.join(d, 'run'); os.makedirs(work, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=98')
    try:
        p = subprocess.Popen([exe, mode, str(seed), str(int(budget))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=work, env=env, start_new_session=True)
        try: out, _ = p.communicate(timeout=budget + 30); hung = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); hung = True
        out = out.decode('utf8', 'replace')
    except OSError as e:
        return dict(name=name, ok=True, out=str(e), wall=time.time() - t, cases=0)
    cases = 0; bound = ''
    for l in out.split('\n'):
        if l.startswith('CASES '): cases = int(l.split()[1])
        if l.startswith('BOUND '): bound = l[6:]
    ok = p.returncode == 0 and not hung
    o = out
    # the harness logs the operations of the current case into last.txt before running them
    lt = os.path.join(work, 'last.txt')
    if not ok:
        o = out[-3000:] if len(out) < 3000 else out[:1500] + '\n...\n' + out[-1500:]
        if os.path.exists(lt): o = 'case: ' + open(lt, errors='replace').read()[:4000] + '\n' + o
        if hung: o += '\n(the case does not terminate)'
        if p.returncode < 0: o += '\n(killed by signal %d)' % -p.returncode
    return dict(name=name, ok=ok, out=o, wall=time.time() - t, cases=cases, bound=bound)
if __name__ == '__main__':
    import sys
    r = run(sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1, 'quick', budget=float(sys.argv[3]) if len(sys.argv) > 3 else 15)
    print(r['ok'], 'cases', r['cases'], 'wall %.1f' % r['wall']); print(r['out'])
