"""Writes MANIFEST.json from the contracts: a property is level proof if the functions that carry it are under contract."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/cppv', H + '/contracts']
import prover, common
prover.ALL, prover.REG = prover.registry()
NOTES = json.load(open(H + '/tools/notes.json'))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {'C19': 'Interleavings of worker threads are outside sequential function contracts: the proof rules of this technique as built here have no rely/guarantee or permission logic for std::thread, std::future and the shared group table, so no obligation would speak about interleavings.'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    cons, lems = prover.closure(i)
    proof = bool(cons)
    fs = [prover.name_of(prover.ALL[c]) for c in cons]
    note = NOTES.get(i, '')
    level = 'proof' if proof and i not in common.PARTIAL else 'exploration'
    rest = '; bounded search only: ' + common.REST[i] if i in common.REST else ''
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i, thorough_cmd='python3-vt check.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='contracts and loop invariants on the real functions, own VC generator over the clang AST, z3/cvc5; bounded concrete search beside it' if proof
                       else 'bounded concrete search of the real functions against independent oracles (no function under contract yet)',
                       level=level,
                       level_note=note or (('proved for all inputs: ' + ', '.join(fs) + rest) if proof else 'bounded; not proved'),
                       **({'theorems': fs + sorted('lemma ' + l for l in set(lems))} if level == 'proof' else {})))
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++-18 --version && cvc5 --version',
         checks=checks, not_applicable=na, hooks=dict(guard='none', enable='no change in /repo is guarded; the checks compile the sources as they are', source_commits=[]),
         notes='Checks need nothing from setup_cmd. See DESIGN.md.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
