"""development driver: run1.py spec [function...]"""
import sys, os, time, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs'))
import vc, unit, ir
from multiprocessing import Process, Queue
Q = '-q' in sys.argv
if Q: sys.argv.remove('-q')
sp = importlib.import_module(sys.argv[1])
u = unit.Unit(sp.UNIT, getattr(sp, 'KEEP', ()))
C = sp.contracts(u)
for n in (sys.argv[2:] or sorted(C)):
    fn = u.fn(getattr(C.get(n), 'fname', n))
    if not fn: 
        m=[x for x in C if x.startswith(n)]
        if not m: print('no function', n); continue
        n=m[0]; fn = u.fn(getattr(C[n], 'fname', n))
    ex = vc.Exec(u.mod, fn, C[n], u)
    t = time.time()
    try:
        rs = ex.run()
        bad = [r for r in rs if not r.ok]
        if bad or not Q: print('%-26s %3d/%3d ok, exits %d paths %d q %d %.1fs %s' % (n, len(rs) - len(bad), len(rs), ex.exits, ex.paths, ex.nq, time.time() - t, [(r.kind, r.name, r.loc, r.status) for r in bad][:4]), flush=True)
    except (ir.Unsupported, vc.Undecided) as e:
        print('%-26s UNDECIDED %s: %s (at %s)' % (n, type(e).__name__, e, ex.loc()), [(r.kind, r.name, r.loc, r.status) for r in ex.results if not r.ok][:6], flush=True)
        if os.environ.get('KV_TB'): traceback.print_exc()
    except Exception as e:
        print(n, 'EXC', repr(e)[:300]); traceback.print_exc(limit=6)
