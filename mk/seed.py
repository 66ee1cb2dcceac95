"""mk/seed.py DIR  -- DIR holds edit.py-style spec: seeded/<id>/spec.json {file, old, new, property, needs, breaks}, demo.cpp.
Confirms: patch applies, builds, stable tests pass, demo passes unpatched and fails patched; writes patch.diff, demo.sh, meta.json.
usage: seed.py ID PROPERTY FILE OLDFILE NEWFILE NEEDS BREAKS (old/new text read from files) or programmatic mk(...)"""
import os, sys, subprocess, json, shutil, tempfile
SD = '/verif/seeded'
DEMO = '''#!/bin/bash
# run with cwd /repo; exit 0 when the behaviour is right
set -u
here="$(cd "$(dirname "$0")" && pwd)"; d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
g++ -std=gnu++17 -w -fno-access-control -DPLATFORM_LINUX=1 -DBUILD_DEBUG -mavx2 -g %s -I src/korin/core/public "$here/demo.cpp" %s -o "$d/demo" -lpthread || exit 3
cd "$d"; timeout 120 ./demo
'''
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def mk(id, prop, edits, demo, needs, breaks, flags='-O1', srcs='src/korin/core/private/hal/*.cpp'):
    """edits: list of (file, old, new)"""
    d = os.path.join(SD, id); os.makedirs(d, exist_ok=True)
    w = '/tmp/seedw'; shutil.rmtree(w, ignore_errors=True); run('cp -a /repo ' + w); run('git -C %s checkout -q -- .' % w)
    open(d + '/demo.cpp', 'w').write(demo); open(d + '/demo.sh', 'w').write(DEMO % (flags, srcs)); os.chmod(d + '/demo.sh', 0o755)
    r = run('bash %s/demo.sh' % d, cwd=w)
    if r.returncode != 0: print(id, 'DEMO FAILS UNPATCHED', r.returncode, r.stdout[-800:], r.stderr[-800:]); return False
    for f, o, n in edits:
        p = os.path.join(w, f); s = open(p).read()
        if s.count(o) != 1: print(id, 'edit text occurs', s.count(o), 'times in', f, repr(o[:60])); return False
        open(p, 'w').write(s.replace(o, n))
    r = run('git -C %s diff' % w); open(d + '/patch.diff', 'w').write(r.stdout)
    r = run('bash %s/demo.sh' % d, cwd=w)
    if r.returncode == 0: print(id, 'DEMO PASSES PATCHED'); return False
    dm = r.returncode
    if dm == 3: print(id, 'demo does not compile with patch', r.stderr[-500:]); return False
    # build + tests against patched tree: in /repo itself (paths are fixed there), then undo
    assert run('git -C /repo status --porcelain -uno').stdout.strip() == '', 'repo dirty'
    try:
        r = run('git -C /repo apply %s/patch.diff' % d)
        if r.returncode: print(id, 'patch does not apply', r.stderr); return False
        b = run('bash /opt/vp/build.sh'); t = run('bash /opt/vp/test.sh /tmp/o.json')
        o = json.load(open('/tmp/o.json'))
    finally:
        run('git -C /repo checkout -- .')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    ok = b.returncode == 0 and base <= passed(o)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w, ignore_errors=True)
    print(id, 'OK' if ok else 'TESTS FAIL %s' % sorted(base - passed(o)), 'demo rc', dm)
    if not ok: shutil.rmtree(d)
    return ok
def passed(o):
    if isinstance(o, dict):
        for k in ('passed', 'pass'):
            if k in o and isinstance(o[k], list): return set(o[k])
        return {k for k, v in o.items() if v in ('pass', 'passed', True)}
    return set()
