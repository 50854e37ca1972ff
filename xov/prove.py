"""prove.py module.json proof [opts] -> JSON result on stdout"""
import sys, json, time, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from exec import *

def prove(mod, proof, opts=None):
    e = Ex(mod, opts); e.proof = proof; t0 = time.time(); e.t0 = t0
    fn = 'xovproof_' + proof; res = {'proof': proof, 'error': None}
    try:
        st = State(); paths = 0
        for (u, k, v) in e.call(st, fn, []):
            paths += 1
            if k == 'throw':
                e.curfn = [fn]; e.oblige(u, False, 'no exception escapes (' + str(u.exc[0] if u.exc else '?') + ')', 'safety')
        res['paths'] = paths
    except Abort: pass
    except Unsupported as x: res['error'] = str(x); res['where'] = [e.short(e.dem.get(f, f)) for f in e.curfn][-4:]
    except RecursionError: res['error'] = 'recursion limit'
    except z3.Z3Exception as x: res['error'] = 'z3: ' + str(x)[:300]; res['tb'] = traceback.format_exc()[-800:]
    except Exception as x: res['error'] = 'internal: ' + repr(x)[:300]; res['tb'] = traceback.format_exc()[-1500:]
    res['obls'] = [dict(name=o.name, kind=o.kind, status=o.status, detail=o.detail, t=round(o.t, 3), solver=o.solver, model=o.model, loops=o.loops) for o in e.obls.values()]
    res['covers'] = e.covers; res['functions'] = sorted({e.dem[f] for f in e.funcs_used if f in e.F}); res['files'] = sorted({e.F[f].get('file') or '' for f in e.funcs_used if f in e.F})
    res['assumed'] = sorted(e.assumed); res['stubs'] = sorted(e.stubs_used); res['solver_time'] = round(e.solver_time, 3); res['queries'] = e.nq; res['wall'] = round(time.time() - t0, 3)
    res['backends'] = e.backends; res['loopinv'] = e.loopinfo
    return res

if __name__ == '__main__':
    mod = json.load(open(sys.argv[1], encoding='latin-1')); ps = sys.argv[2:]
    if not ps or ps == ['*']: ps = [f[len('xovproof_'):] for f in mod['functions'] if f.startswith('xovproof_')]
    for p in ps:
        r = prove(mod, p)
        bad = [o for o in r['obls'] if o['status'] != 'proved']
        print(f"{p}: {len(r['obls'])-len(bad)}/{len(r['obls'])} proved, {r['wall']}s, {r['queries']} queries; paths {r.get('paths')}; covers {r['covers']}")
        if r['error']: print('   ERROR', r['error'], r.get('where'), r.get('tb', ''))
        for o in bad: print('   ', o['status'], o['name'], o['detail'], o['t'], o['model'])
        if os.environ.get('V'):
            for l, i in r['loopinv'].items(): print('   INV', l, i)
            for o in r['obls']: print('      ', o['status'], o['name'], o['solver'], o['t'])
            print(r['assumed'], r['stubs'], r['backends'])
