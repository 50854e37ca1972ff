#!/opt/veriftools/pyvenv/bin/python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 props.py` after editing (development only; no check reads it)."""
import json, os, re, glob
ROOT = os.path.dirname(os.path.abspath(__file__))
P = []; NA = []
def p(id, title, statement, qtext, why, files, mech, over=('inputs',), level='proof', state=None, na=None, note=''):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files.split(), 'mechanism': [dict(name=n, where=w) for n, w in mech]}
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why, anchors=a))
    if na: NA.append(dict(property=id, reason=na))
    else: CH.append((id, level, note))
CH = []
exec(open(f'{ROOT}/props_list.py').read())
TRUST = 'Trusts clang/opt, the VC generator in xov/, z3/cvc5 and the contract headers for std::string/vector/algorithm in xov/shim; floating point is treated as exact real arithmetic and signed integers as mathematical; termination is not proved.'
if __name__ == '__main__':
    with open(f'{ROOT}/properties.jsonl', 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    checks = []
    for id, level, note in CH:
        specs = sorted(glob.glob(f'{ROOT}/specs/{id}.cpp') + glob.glob(f'{ROOT}/specs/{id}_*.cpp')); assert specs, id
        t = ''.join(open(s).read() for s in specs)
        th = re.findall(r'^XOV_PROOF\( *(\w+) *\)', t, re.M); bo = re.findall(r'^XOV_BOUNDED\( *(\w+) *\)', t, re.M)
        if level == 'proof': ln = f'Every obligation of {len(th)} contracts over the IR of the real sources is discharged, with no bound on inputs except those a contract names'
        else: ln = f'{len(th)} contracts discharged deductively; the rest of the statement rests on bounded stand-ins'
        if bo: ln += f'; bounded stand-ins (small-scope enumeration then random, real code under ASan/UBSan; never counted as proved): {", ".join(bo)}'
        ln += '. ' + (note + ' ' if note else '') + TRUST
        c = dict(property=id, quick_cmd=f'./check.py {id}', thorough_cmd=f'./check.py {id} --tier thorough', evidence_file=f'evidence/{id}.json',
                 technique='contract-based deductive verification of the real C++ code (contracts -> LLVM IR -> verification conditions -> z3/cvc5)' + ('; bounded execution of contracts outside the verifier\'s reach' if bo else ''), level=level, level_note=ln)
        if level == 'proof': c['theorems'] = th
        checks.append(c)
    m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=NA, notes='No hooks in /repo: contracts live in /verif/specs and are compiled together with the unmodified sources of /repo on every run. DESIGN.md explains the method.')
    json.dump(m, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)
    json.dump({id: l for id, l, n in CH}, open(f'{ROOT}/levels.json', 'w'))
    import jsonschema
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x, ps)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json'))); print(len(P), 'properties', len(checks), 'checks', len(NA), 'not applicable')
