"""check.py <property> : decide one property by discharging every obligation generated from /repo's current source."""
import sys, os, time, json, importlib, traceback, subprocess, re, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(ROOT, 'specs')); sys.path.insert(0, ROOT)
import vc, unit, ir
import props
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def load_spec(name):
    import importlib.util
    sp = importlib.util.spec_from_file_location('spec_' + name, os.path.join(ROOT, 'specs', name + '.py'))
    m = importlib.util.module_from_spec(sp); sys.modules['spec_' + name] = m; sp.loader.exec_module(m)
    return m

UNITS = {}
def work(job):
    spec, fn = job
    t = time.time(); out = dict(fn=fn, spec=spec, results=[], err=None, exits=0, covers=0, vac=[], nq=0, qtime=0.0, opaque=[], loops=0)
    try:
        u, C = UNITS[spec]
        c = C[fn]; f = u.fn(getattr(c, 'fname', fn))      # several contracts (cases) may be given for one function
        if f is None: raise ir.Unsupported('function %s is not in the extracted IR' % fn)
        ex = vc.Exec(u.mod, f, c, u, timeout=getattr(c, 'timeout', 10000) * (3 if TIER == 'thorough' else 1))
        out['file'] = sorted({x.split(':')[0] for b in f.blocks.values() for i in b.insts if i.dbg for x in [u.loc(i.dbg)] if x})
        try:
            ex.run()
        except (ir.Unsupported, vc.Undecided) as e:
            out['err'] = '%s: %s (at %s)' % (type(e).__name__, e, ex.loc())
        out['results'] = [(r.kind, r.name, r.loc, r.ok, r.status, round(r.time, 3), r.backend, r.model) for r in ex.results]
        out['exits'] = ex.exits; out['nq'] = ex.nq; out['qtime'] = ex.qtime; out['loops'] = len(ex.loops)
        # vacuity guard: the precondition, and at least one way out, must not be contradictory
        okx = 0
        ents = [p for n, p in ex.cov if n == 'entry']; exs = [p for n, p in ex.cov if n == 'exit']
        def notunsat(pc):
            so = vc.SimpleSolver(); so.set('timeout', 1500); so.add(*pc); return so.check() != vc.unsat
        for p in ents:
            if not notunsat(p): out['vac'].append('precondition is contradictory')
        for p in exs[:6]:
            if notunsat(p): okx += 1; break
        out['covers'] = okx
        if not out['err'] and exs and not okx and not getattr(c, 'noexit', False): out['vac'].append('no exit is reachable')
        if not out['err'] and not exs and not getattr(c, 'noexit', False): out['vac'].append('no path reaches an exit')
        if not out['results']: out['vac'].append('no obligation was generated')
    except Exception as e:
        out['err'] = '%s: %s' % (type(e).__name__, str(e)[:300]); out['tb'] = traceback.format_exc()[-1500:]
    out['wall'] = time.time() - t
    return out

def known():
    fs = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) function=(\S+) obligation="([^"]*)" (.*)', l.strip())
            if m: fs.append(m.groups())
    return fs

def main():
    pid = sys.argv[1]; P = props.PROPS[pid]; t0 = time.time()
    failed = []; undec = []; jobs = []; builds = []; outs = []
    for spec, sel in P['parts']:
        try:
            m = load_spec(spec)
            u = unit.Unit(m.UNIT, getattr(m, 'KEEP', ()), **getattr(m, 'UNIT_ARGS', {}))
            C = m.contracts(u); UNITS[spec] = (u, C)
            builds.append(u.cmd)
            rx = re.compile(sel) if sel else None
            fs = [n for n in C if not rx or rx.search(n)]
            fs.sort(key=lambda n: -getattr(C[n], 'cost', 1))
            jobs += [(getattr(C[n], 'cost', 1), spec, n) for n in fs]
        except (unit.BuildError, ir.Unsupported) as e:
            undec.append((spec, 'extraction', str(e)[:1500]))
        except Exception as e:
            undec.append((spec, 'extraction', traceback.format_exc()[-1500:]))
    jobs.sort(key=lambda j: -j[0])
    if jobs:
        ctx = mp.get_context('fork')
        lim = P.get('limit', 780 if TIER == 'quick' else 6000)
        pool = ctx.Pool(min(8, len(jobs)), maxtasksperchild=1)
        rs = [(j, pool.apply_async(work, ((j[1], j[2]),))) for j in jobs]
        for j, r in rs:
            try: outs.append(r.get(max(1, lim - (time.time() - t0))))
            except mp.TimeoutError:
                outs.append(dict(fn=j[2], spec=j[1], results=[], err='Undecided: wall-clock limit', exits=0, covers=0, vac=[], nq=0, qtime=0, wall=lim, loops=0))
        pool.terminate()
    kf = [k for k in known() if k[0] == pid]; kfhit = set()
    nob = ndis = 0; be = {}; fns = []
    for o in outs:
        bad = 0
        for kind, name, loc, ok, st, dt, b, model in o['results']:
            flt = P.get('only'); flt = flt.get(o['spec']) if isinstance(flt, dict) else flt
            if flt and not flt(kind, name): continue
            nob += 1
            if ok: ndis += 1; be[b] = be.get(b, 0) + 1
            else:
                k = [x for x in kf if x[1] == o['fn'] and x[2] == name]
                if k: kfhit.add(k[0]); continue
                bad += 1; failed.append((o['fn'], kind, name, loc, st, model))
        if o['err']:
            k = [x for x in kf if x[1] == o['fn'] and x[2] == '*']
            if k: kfhit.add(k[0])
            else: undec.append((o['fn'], 'not verified', o['err'] + ('\n' + o['tb'] if o.get('tb') else '')))
        for v in o['vac']: undec.append((o['fn'], 'vacuous', v))
        fns.append(dict(function=o['fn'], obligations=len(o['results']), failed=bad, exits=o['exits'], loops=o['loops'], reachability_checks=o['covers'], queries=o['nq'],
                        solver_s=round(o['qtime'], 2), wall_s=round(o['wall'], 2), sources=o.get('file', []), status='verified' if not bad and not o['err'] and not o['vac'] else 'NOT VERIFIED'))
    if not outs: undec.append(('-', 'vacuous', 'no function was checked'))
    # bounded stand-ins (never counted as proved)
    bounded = []; inputs = []
    import replay
    for b in P.get('bounded', []):
        r = replay.run(b, SEED, TIER, mode='bounded')
        bounded.append(dict(harness=b, bound=r.get('bound', ''), cases=r.get('cases', 0), label='bounded, not proved', wall_s=round(r['wall'], 1), ok=r['ok']))
        if not r['ok']: inputs.append(r)
    viol = bool(failed or undec or inputs)
    rp = os.path.join(ROOT, 'evidence', pid + '.replay.txt')
    if os.path.exists(rp): os.unlink(rp)
    searched = []
    if failed or undec:
        for b in P.get('replay', []):
            if any(i.get('name') == b for i in inputs): continue
            r = replay.run(b, SEED, TIER, mode='search', budget=max(20, min(P.get('search_s', 150), 840 - (time.time() - t0))))
            searched.append(dict(harness=b, cases=r.get('cases', 0), found=not r['ok'], wall_s=round(r['wall'], 1)))
            if not r['ok']: inputs.append(r); break
    ev = dict(property=pid, tier=TIER, seed=SEED, level=P['level'],
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt /verif/kv/check.py %s' % pid,
                            trusted_base=P.get('trusted', []) + props.TRUSTED, functions_under_contract=len(fns), functions=fns, backends=be,
                            solver_s=round(sum(o['qtime'] for o in outs), 1), solver_queries=sum(o['nq'] for o in outs), extraction=builds,
                            undischarged=[dict(function=f, kind=k, obligation=n, at=l, solver=st) for f, k, n, l, st, m in failed][:50],
                            undecided=[dict(function=a, why=b, detail=c[:500]) for a, b, c in undec][:30], bounded_standins=bounded, replay_search=searched,
                            not_under_contract=P.get('outside', [])),
              assumptions=P.get('assumptions', []) + props.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if P['level'] != 'proof':
        ev['coverage']['explanation'] = P.get('explanation', 'contract obligations plus bounded stand-ins; see bounded_standins')
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in sorted(kfhit): print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    print('%s: %d functions under contract, %d obligations, %d discharged, %.1f s solver, %.1f s wall' % (pid, len(fns), nob, ndis, ev['coverage']['solver_s'], time.time() - t0))
    for b in bounded: print('   bounded stand-in %s: %s cases, bound: %s' % (b['harness'], b['cases'], b['bound']))
    if viol:
        with open(rp, 'w') as fh:
            fh.write('property %s\n\n' % pid)
            if failed:
                fh.write('Failed obligations:\n')
                for f, k, n, l, st, m in failed[:40]: fh.write('  %s: %s obligation "%s" at %s: solver says %s\n      %s\n' % (f, k, n, l, st, m or ''))
            for a, b, c in undec: fh.write('Obligations of %s could not be decided (%s): %s\n' % (a, b, c))
            for i in inputs: fh.write('\nFailing input, run against the real code (harness %s):\n%s\n' % (i['name'], i['out']))
            if not inputs: fh.write('\nno-failing-input-found: searched %s\n' % searched)
        for f, k, n, l, st, m in failed[:12]: print('   failed: %s: %s "%s" at %s (%s)' % (f, k, n, l, st))
        for a, b, c in undec[:6]: print('   undecided: %s: %s: %s' % (a, b, c[:300]))
        if inputs: print('   failing input: ' + inputs[0]['out'][-600:].replace('\n', '\n     '))
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if inputs else ' no-failing-input-found'))
        sys.stdout.flush()
        sys.exit(1)
    sys.exit(0)
if __name__ == '__main__': main()
