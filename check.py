#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough] [--baseline]

Decides one property of /repo's current tree by contract-based deductive verification:
 1. compiles specs/<property>*.cpp (contracts around the real sources of /repo) to LLVM IR and dumps it mechanically;
 2. proves every contract (xov/engine.py, xov/exec.py: verification conditions discharged by z3 / cvc5);
 3. executes the same contracts natively (real libstdc++, ASan+UBSan): replays solver counterexamples, and runs a
    bounded search, which is what stands in (labelled bounded) for anything not discharged;
 4. writes evidence/<property>.json; exit 0, or exit 1 with a VIOLATION line.
"""
import sys, os, json, time, subprocess, glob, shutil, hashlib, re, resource, signal, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('XOV_REPO', '/repo')
XOV = os.path.join(ROOT, 'xov'); T0 = time.time()
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY): PY = 'python3-vt'
NCPU = os.cpu_count() or 8

def sh(cmd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, **kw); return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'

INC = ['-isystem', f'{XOV}/shim', '-isystem', '/usr/include/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu/c++/13', '-isystem', '/usr/include/x86_64-linux-gnu', '-isystem', '/usr/include', '-I', XOV, '-I', REPO]
SYMFLAGS = ['--target=wasm64-unknown-unknown', '-std=c++17', '-fno-access-control', '-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-mno-constructor-aliases', '-fexceptions', '-fcxx-exceptions', '-ffp-contract=off', '-fno-math-errno', '-g1', '-D__x86_64__', '-DXOV_SYM', '-nostdinc++', '-nostdlibinc', '-w']
NATFLAGS = ['-std=c++17', '-fno-access-control', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=float-cast-overflow,float-divide-by-zero,vptr', '-w', '-I', XOV, '-I', REPO]

def irdump():
    b = os.path.join(ROOT, 'build'); os.makedirs(b, exist_ok=True)
    h = hashlib.sha256(open(f'{XOV}/irdump.cpp', 'rb').read()).hexdigest()[:12]; out = f'{b}/irdump-{h}'
    if os.path.exists(out): return out
    fl = sh(['/usr/lib/llvm-18/bin/llvm-config', '--cxxflags', '--ldflags'])[1]; fl = [f for f in fl.split() if not f.startswith('-std=')]
    tmp = f'{out}.{os.getpid()}'
    rc, o, e = sh(['clang++-18', '-O1', '-std=c++17', f'{XOV}/irdump.cpp', '-o', tmp] + fl + ['-fexceptions', '-lLLVM-18'])
    if rc: raise RuntimeError('irdump build failed: ' + e[-800:])
    os.rename(tmp, out); return out

def extract(spec, work, tool):
    o = os.path.join(work, os.path.basename(spec))
    rc, _, e = sh(['clang++-18'] + SYMFLAGS + (['-DXOV_CONCRETE'] if open(spec).readline().strip() == '#define XOV_CONCRETE' else []) + INC + ['-include', 'xov_std.h', '-emit-llvm', '-c', spec, '-o', o + '.bc'])
    if rc: return None, 'compile: ' + '\n'.join(l for l in e.split('\n') if 'error' in l)[:600]
    rc, _, e = sh(['opt-18', '-passes=sroa,loop-simplify', o + '.bc', '-o', o + '.2.bc'])
    if rc: return None, 'opt: ' + e[:400]
    with open(o + '.json', 'w') as f:
        p = subprocess.run([tool, o + '.2.bc'], stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode: return None, 'irdump: ' + p.stderr[:400]
    return o + '.json', None

def proofs_of(spec):
    t = open(spec).read()
    return re.findall(r'^XOV_PROOF\( *(\w+) *\)', t, re.M), re.findall(r'^XOV_BOUNDED\( *(\w+) *\)', t, re.M), re.findall(r'^XOV_FINDING\( *(\w+) *\)', t, re.M)

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30)); os.setsid()

def run_proof(js, proof, tier, budget):
    cmd = [PY, f'{XOV}/worker.py', js, proof, json.dumps({'budget': budget, 'qtime': 8000 if tier == 'quick' else 30000})]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limits, env={**os.environ, 'PYTHONHASHSEED': '0'})
    try:
        o, e = p.communicate(timeout=budget + 40)
        return json.loads(o)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait(); return {'proof': proof, 'error': 'time limit', 'obls': [], 'covers': {}, 'timeout': True}
    except Exception as x:
        return {'proof': proof, 'error': 'verifier stopped: ' + ((e or '').strip().split(chr(10)) or [''])[-1][-200:] + repr(x)[:100], 'obls': [], 'covers': {}}

def native_build(specs, work):
    """one native executable per spec, linked with the real objects of /repo"""
    objs = []; errs = []
    srcs = sorted(glob.glob(f'{REPO}/xo/*/*.cpp'))
    jobs = [(s, f'{work}/lib_{i}.o') for i, s in enumerate(srcs)] + [(f'{XOV}/native_main.cpp', f'{work}/main.o')] + [(s, f'{work}/{os.path.basename(s)}.o') for s in specs]
    jobs.sort(key=lambda j: not j[0].startswith(ROOT))
    def cc(j): return j, sh(['g++'] + NATFLAGS + ['-c', j[0], '-o', j[1]])
    bad = {}
    with ThreadPoolExecutor(NCPU) as ex:
        for j, (rc, _, e) in ex.map(cc, jobs):
            if rc: bad[j[0]] = '\n'.join(l for l in e.split('\n') if 'error' in l)[:500]
    libs = [o for s, o in jobs if s in srcs and s not in bad]
    lib = f'{work}/libxo.a'; sh(['ar', 'rcs', lib] + libs)
    out = {}
    for s in specs:
        if s in bad: out[s] = (None, bad[s]); continue
        exe = f'{work}/{os.path.basename(s)}.exe'
        rc, _, e = sh(['g++', '-fsanitize=address,undefined', f'{work}/{os.path.basename(s)}.o', f'{work}/main.o', '-Wl,--allow-multiple-definition', lib, '-lpthread', '-ldl', '-o', exe])
        out[s] = (exe, None) if rc == 0 else (None, 'link: ' + e[-400:])
    return out

def native_run(exe, proof, ms, seed, cwd):
    rc, o, e = sh([exe, 'run', proof, str(ms), str(seed)], timeout=ms / 1000 + 90, cwd=cwd, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
    r = {'proof': proof, 'rc': rc, 'runs': 0, 'ok': 0, 'fail': None}
    for l in o.split('\n'):
        f = l.split('\t')
        if f[0] == 'FAIL' and r['fail'] is None: r['fail'] = {'label': f[2], 'choices': f[3].split() if len(f) > 3 else []}
        if f[0] == 'STAT': r['runs'], r['ok'], r['exh'], r['covers'] = int(f[2]), int(f[3]), f[5] == '1', [c for c in f[7].split(';') if c]
    if r['fail'] is None and rc not in (0, 124): r['fail'] = {'label': 'abnormal termination ' + (re.findall(r'(ERROR: \S+ \S+|runtime error: [^\n]*)', e) or [''])[0][:200], 'choices': []}
    if rc not in (0,): r['stderr'] = e[-3000:]
    return r

def replay(exe, proof, choices, cwd):
    rc, o, e = sh([exe, 'replay', proof] + choices, timeout=40, cwd=cwd)
    lab = next((l.split('\t')[2] for l in o.split('\n') if l.startswith('FAIL')), None)
    return rc not in (0, 3, 124), lab, o[-800:] + e[-1500:]

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    mkbase = '--baseline' in sys.argv
    specs = sorted(glob.glob(f'{ROOT}/specs/{pid}.cpp') + glob.glob(f'{ROOT}/specs/{pid}_*.cpp'))
    deadline = T0 + (560 if tier == 'quick' else 840)
    os.makedirs(f'{ROOT}/build', exist_ok=True); os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    work = tempfile.mkdtemp(prefix=f'{pid}-', dir=f'{ROOT}/build'); cwd = os.path.join(work, 'cwd'); os.makedirs(cwd)
    basef = f'{ROOT}/baseline/{pid}.json'; base = json.load(open(basef)) if os.path.exists(basef) else {}
    known = {}
    for l in open(f'{ROOT}/known_findings.txt') if os.path.exists(f'{ROOT}/known_findings.txt') else []:
        m = re.match(r'finding: property=(\S+) proof=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid: known[m.group(2)] = m.group(3)
    try: return decide(pid, tier, seed, specs, deadline, work, cwd, base, basef, known, mkbase)
    finally: shutil.rmtree(work, ignore_errors=True)

def decide(pid, tier, seed, specs, deadline, work, cwd, base, basef, known, mkbase):
    ex = ThreadPoolExecutor(NCPU)
    natf = ThreadPoolExecutor(1).submit(native_build, specs, work)
    problems = []; results = {}; js = {}
    try: tool = irdump()
    except Exception as x: tool = None; problems.append(str(x))
    if tool:
        for s, (j, err) in zip(specs, ex.map(lambda s: extract(s, work, tool), specs)):
            if j is None: problems.append(f'{os.path.basename(s)}: extraction failed: {err}')
            js[s] = j
    budget = 150 if tier == 'quick' else 400
    futs = []
    order = []
    for s in specs:
        pr, bo, fi = proofs_of(s)
        for p in pr: order.append((s, p))
    order.sort(key=lambda x: -base.get('proofs', {}).get(x[1], {}).get('wall', 1))
    nat = natf.result()
    for s, p in order:
        if js.get(s): futs.append((s, p, ex.submit(lambda s=s, p=p: run_proof(js[s], p, tier, max(20, min(budget, deadline - time.time() - 60))))))
    for s, p, f in futs: results[p] = f.result()
    # ---- native: replay counterexamples, then bounded search
    violations = []; natres = {}
    for s, p in order:
        r = results.get(p); exe, err = nat.get(s, (None, 'no build'))
        if not r or not exe: continue
        for o in r['obls']:
            if o['status'] == 'refuted' and o.get('model') is not None and not any(v['proof'] == p for v in violations):
                bad, lab, out = replay(exe, p, o['model'], cwd)
                if bad: violations.append(dict(proof=p, obligation=o['name'], label=lab, choices=o['model'], output=out, how='solver counterexample replayed on the real code', exe=s))
    alln = []
    for s in specs:
        pr, bo, fi = proofs_of(s); exe, err = nat.get(s, (None, 'no build'))
        if not exe: problems.append(f'{os.path.basename(s)}: native build failed: {err}'); continue
        alln += [(s, exe, p, k) for k, ps in (('proof', pr), ('bounded', bo), ('finding', fi)) for p in ps]
    undis = {p for p, r in results.items() if r.get('error') or any(o['status'] != 'proved' for o in r['obls'])}
    def nrun(t):
        s, exe, p, k = t
        left = max(2, deadline - time.time() - 20)
        slots = max(1, (len(alln) + NCPU - 1) // NCPU)
        ms = {'proof': 2500, 'bounded': 12000, 'finding': 1500}[k] * (1 if tier == 'quick' else 8)
        if p in undis or p not in results and k == 'proof': ms = 20000 if tier == 'quick' else 60000
        ms = min(ms, left * 1000 / slots)
        return native_run(exe, p, int(ms), seed, cwd)
    for (s, exe, p, k), r in zip(alln, ex.map(nrun, alln)):
        r['kind'] = k; natres[p] = r
        if r['fail'] and k != 'finding' and not any(v['proof'] == p for v in violations):
            violations.append(dict(proof=p, obligation=r['fail']['label'], label=r['fail']['label'], choices=r['fail']['choices'], output=r.get('stderr', ''), how='bounded search on the real code', exe=s))
        if r['fail'] and k == 'finding':
            if p in known: print(f'KNOWN-FINDING: property={pid} {known[p]}')
            else: violations.append(dict(proof=p, obligation=r['fail']['label'], label=r['fail']['label'], choices=r['fail']['choices'], output=r.get('stderr', ''), how='directed input on the real code', exe=s))
    # ---- proof obligations lost with respect to the baseline
    bp = base.get('proofs', {})
    undecided = []
    for p, r in results.items():
        lost = [o for o in r['obls'] if o['status'] == 'refuted']
        if r.get('error'): undecided.append(f"{p}: {r['error']}")
        und = [o for o in r['obls'] if o['status'] in ('unknown', 'timeout')]
        if und: undecided.append(f"{p}: not discharged: " + '; '.join(o['name'] for o in und[:4]))
        if lost and not any(v['proof'] == p for v in violations):
            if bp.get(p, {}).get('complete') and not base.get('weak', {}).get(p):
                strong = [o for o in lost if not o.get('loops')]
                if strong: violations.append(dict(proof=p, obligation=strong[0]['name'], label=strong[0]['name'], choices=strong[0].get('model'), output=json.dumps(strong[0]), how='obligation discharged on the baseline is now refuted by the solver', nofail=True))
                else: undecided.append(f"{p}: no longer discharged after an inferred loop invariant: " + '; '.join(o['name'] for o in lost[:4]))
            else: undecided.append(f"{p}: not discharged: " + '; '.join(o['name'] for o in lost[:4]))
    for p, b in bp.items():
        r = results.get(p)
        if r and b.get('complete') and not r.get('error'):
            for c, v in b.get('covers', {}).items():
                if v != 'unreachable' and r['covers'].get(c) == 'unreachable': undecided.append(f'{p}: cover point "{c}" became unreachable')
    # ---- report
    obls = [o for r in results.values() for o in r['obls']]; dis = [o for o in obls if o['status'] == 'proved']
    errs = [p for p, r in results.items() if r.get('error')]
    for p in problems + undecided: print('NOTE:', p)
    be = {}
    for r in results.values():
        for k, v in r.get('backends', {}).items(): be[k] = be.get(k, 0) + v
    fns = sorted({f for r in results.values() for f in r.get('functions', []) if not f.startswith('xovproof_') and 'xov' not in f.split('(')[0]})
    repo_fns = sorted({f for f in fns if 'xo::' in f and not f.startswith(('std::', 'auto ', 'bool std::'))})
    nb = [dict(name=p, kind=natres[p]['kind'], runs=natres[p]['runs'], in_precondition=natres[p]['ok'], exhaustive_small_scope=bool(natres[p].get('exh'))) for p in natres]
    complete = sorted(p for p, r in results.items() if not r.get('error') and all(o['status'] == 'proved' for o in r['obls']) and r['obls'])
    trusted = ['clang 18 (-O1 -disable-llvm-passes, wasm64 LP64 target) and opt passes sroa,loop-simplify translate the C++ sources faithfully', 'xov engine.py/exec.py: the VC generator and symbolic heap', 'z3 4.8.12 / cvc5 1.1.2', 'contract headers xov/shim for std::string, std::vector, <algorithm>', 'floating point treated as exact real arithmetic; signed integers as mathematical', 'partial correctness: termination is not proved']
    ass = sorted({a for r in results.values() for a in r.get('assumed', [])} | {'contract used at call sites (body verified by its own proof): ' + s for r in results.values() for s in r.get('stubs', [])})
    level = json.load(open(f'{ROOT}/levels.json')).get(pid, 'proof') if os.path.exists(f'{ROOT}/levels.json') else 'proof'
    wit = [o['name'] for o in obls][:3]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': {'obligations': len(obls), 'discharged': len(dis), 'checker_cmd': f'check.py {pid} --tier {tier}', 'trusted_base': trusted,
            'proofs': {p: dict(obligations=len(r['obls']), discharged=sum(o['status'] == 'proved' for o in r['obls']), solver_s=r.get('solver_time'), queries=r.get('queries'), wall_s=r.get('wall'), paths=r.get('paths'), error=r.get('error'), covers=r.get('covers'), loop_invariants=r.get('loopinv')) for p, r in results.items()},
            'obligation_names': sorted({o['name'] for o in obls}), 'back_ends': be, 'solver_s': round(sum(r.get('solver_time', 0) for r in results.values()), 2), 'functions_under_contract': repo_fns, 'functions_executed': len(fns),
            'proofs_complete': complete, 'bounded_native': nb, 'undecided': undecided + problems, 'known_findings': sorted(known),
            'cases': sum(n['runs'] for n in nb), 'witnesses': wit, 'bounds': 'none for proofs; bounded_native entries: small-scope enumeration then random inputs for a fixed time', 'complete': bool(obls) and len(dis) == len(obls) and not errs},
          'assumptions': ass, 'wall_s': round(time.time() - T0, 2), 'violations': [dict(proof=v['proof'], obligation=v['obligation'], how=v['how']) for v in violations]}
    json.dump(ev, open(f'{ROOT}/evidence/{pid}.json', 'w'), indent=1)
    if mkbase:
        os.makedirs(f'{ROOT}/baseline', exist_ok=True)
        json.dump({'proofs': {p: dict(complete=p in complete, obligations=len(r['obls']), wall=round(r.get('wall', 0)), covers=r.get('covers', {})) for p, r in sorted(results.items())}}, open(basef, 'w'), indent=1, sort_keys=True)
    print(f'{pid}: {len(dis)}/{len(obls)} obligations discharged in {len(complete)}/{len(order)} complete proofs; bounded native runs {ev["coverage"]["cases"]}; {ev["wall_s"]} s')
    if violations:
        rd = f'{ROOT}/replays'; os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(violations):
            path = f'{rd}/{pid}-{v["proof"]}.json'
            json.dump({'property': pid, 'proof': v['proof'], 'failed_obligation': v['obligation'], 'how': v['how'], 'inputs': v['choices'], 'replay': f'python3 check.py replay {pid} {v["proof"]} ' + ' '.join(v['choices'] or []) if not v.get('nofail') else None, 'output': v['output']}, open(path, 'w'), indent=1)
            print(f'  failed obligation: {v["proof"]}: {v["obligation"]} [{v["how"]}] inputs: {" ".join((v["choices"] or [])[:40])}')
            print(f'VIOLATION property={pid} replay={path}' + (' no-failing-input-found' if v.get('nofail') else ''))
        return 1
    return 0

def do_replay():
    pid, proof, ch = sys.argv[2], sys.argv[3], sys.argv[4:]
    specs = [s for s in glob.glob(f'{ROOT}/specs/{pid}*.cpp') if proof in sum(proofs_of(s), [])]
    work = tempfile.mkdtemp(); nat = native_build(specs, work)
    try:
        exe, err = nat[specs[0]]; print(err or ''); bad, lab, out = replay(exe, proof, ch, work); print(out); return 1 if bad else 0
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'replay': sys.exit(do_replay())
    if len(sys.argv) > 1 and sys.argv[1] == 'setup': irdump(); sys.exit(0)
    sys.exit(main())
