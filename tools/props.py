"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, note, observe=(), na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))
    assert len(title) <= 80, title
    NA.append((id, na, note))


exec(open(os.path.join(ROOT, 'tools', 'proplist.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks = []
for id, na, note in NA:
    if na or not os.path.exists(os.path.join(ROOT, 'checks', id.lower() + '.py')):
        continue
    cmd = 'python3-vt irsym/run.py ' + id
    checks.append(dict(property=id, quick_cmd=cmd, thorough_cmd='VERIF_TIER=thorough ' + cmd, evidence_file='evidence/%s.json' % id,
                       technique='symbolic execution of the LLVM IR of the real C sources, obligations decided by Z3',
                       level='model_checking', level_note=note))
done = {c['property'] for c in checks}
na = [dict(property=id, reason=na or 'no check built yet') for id, na, note in NA if id not in done]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'irsym\'); import vf"', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks compile the unmodified sources. Known findings: known-findings.json.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
