#!/usr/bin/env python3
"""Development tool: seed.py <bugs.py> [ids...]: each bug = dict(id, prop, edits=[(file, old, new)...], demo=C++ body, needs, breaks).
Plants it in /repo, confirms build + stable tests + failing demo, runs the property's check, undoes it, confirms the demo on the clean tree, stores seeded/<id>."""
import sys, os, json, subprocess, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after its build
d="$(cd "$(dirname "$0")" && pwd)"; t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
lib="$(find "$PWD" -name libxo.so -not -path '*/.git/*' | head -1)"
g++ -std=c++17 -O1 -w -I. "$d/demo.cpp" "$lib" -Wl,-rpath,"$(dirname "$lib")" -lpthread -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
'''
def build(): return sh('bash /opt/vp/build.sh').returncode == 0
def tests():
    sh('bash /opt/vp/test.sh /tmp/seed_t.json'); d = json.load(open('/tmp/seed_t.json')); return len(d['passed']) == 33 and not d['failed']
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns); want = sys.argv[2:]
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        d = f"{ROOT}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
        try:
            for f, o, n in b['edits']:
                t = open(f'/repo/{f}', encoding='latin-1', newline='').read()
                if '\r\n' in t: o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
                assert t.count(o) == 1, (b['id'], f, t.count(o), o)
                open(f'/repo/{f}', 'w', encoding='latin-1', newline='').write(t.replace(o, n))
            open(f'{d}/patch.diff', 'wb').write(subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout)
            open(f'{d}/demo.cpp', 'w').write(b['demo']); open(f'{d}/demo.sh', 'w').write(DEMO_SH); os.chmod(f'{d}/demo.sh', 0o755)
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
            ok = build(); tt = ok and tests(); r = sh(f'{d}/demo.sh', cwd='/repo') if ok else None
            c = sh(f'./check.py {b["prop"]}', cwd=ROOT) if ok else None
        finally: sh('git -C /repo checkout -- .')
        build(); r0 = sh(f'{d}/demo.sh', cwd='/repo')
        good = ok and tt and r.returncode not in (0, 2) and r0.returncode == 0
        v = [l for l in (c.stdout if c else '').split('\n') if 'VIOLATION' in l or 'failed obligation' in l or 'NOTE' in l]
        print(f"{b['id']} prop {b['prop']}: {'VALID' if good else 'INVALID'} build={ok} tests={tt} demo={r and r.returncode}/{r0.returncode} check={'CAUGHT' if c and c.returncode == 1 else 'missed'} rc={c and c.returncode}", flush=True)
        if not good: print((r.stdout if r else '')[-600:], r0.stdout[-600:])
        for l in v[:4]: print('    ', l[:220], flush=True)
main()
