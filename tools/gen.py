#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import props
NA = getattr(props, 'NA', [])
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'])
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
checks = []
idx = {}
old = json.load(open(os.path.join(root, 'harness/index.json')))
for p in props.P:
    if not p['claim']: continue
    e = {'files': p['harness'], 'bounds': {'quick': p['quick'], 'thorough': p['thorough'] or p['quick']}, 'outside': p['outside']}
    for k in ('flags', 'max_ticks', 'driver', 'only'):
        if k in old.get(p['id'], {}): e[k] = old[p['id']][k]
    e.update(p.get('extra', {}))
    idx[p['id']] = e
    checks.append(dict(property=p['id'], quick_cmd='python3-vt engine/run.py ' + p['id'],
        thorough_cmd='python3-vt engine/run.py %s --tier thorough' % p['id'],
        technique=p.get('technique') or 'symbolic execution of the LLVM IR of the current sources, assertions decided by z3',
        level='model_checking',
        level_note=p.get('note') or ('Bounded: holds for every symbolic value within: ' + p['quick'] + '. Outside: ' + p['outside'] +
            '. Trusts clang, z3, the IR interpreter in engine/ and the runtime models in shim/; doubles are read as reals. A reported violation is replayed on the natively compiled code first.')))
json.dump(idx, open(os.path.join(root, 'harness/index.json'), 'w'), indent=1)
json.dump(dict(version=1, setup_cmd='python3-vt -m py_compile engine/run.py engine/engine.py engine/decide.py', checks=checks,
    not_applicable=NA, notes='No hooks in /repo. Known findings and repaired defects: known-findings.txt. Design: DESIGN.md.'),
    open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
