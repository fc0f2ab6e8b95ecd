#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from specs.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import specs
NOTE = ("The property is an assertion over the symbolically executed LLVM IR of the real code; Z3 decides it for every value of the symbolic inputs on every feasible path within the stated bounds "
        "(exhaustive=true in the evidence when nothing was left open). Trusted: clang, the symbolic executor in engine/ (sampled paths are re-run on the native build every time), Z3, the harness oracle. ")
with open(V + '/properties.jsonl', 'w') as f:
    for pid in sorted(specs.PROPS):
        p = specs.PROPS[pid]
        f.write(json.dumps(dict(id=pid, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p.get('observe', []), hook_needed=p.get('hook')))) + '\n')
checks, na = [], []
for pid in sorted(specs.PROPS):
    p = specs.PROPS[pid]
    if not p.get('quick'):
        na.append(dict(property=pid, reason=p['na']))
        continue
    checks.append(dict(property=pid, quick_cmd=f'python3 check.py {pid}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {pid}', evidence_file=f'evidence/{pid}.json',
                       technique='bounded symbolic execution of the real code (LLVM IR) with an SMT solver (Z3), counterexamples replayed natively', level='model_checking',
                       level_note=NOTE + 'Bounds: ' + p['bounds']))
m = dict(version=1, setup_cmd='bash engine/build.sh build', hooks=dict(guard='CACHELOT_DICT_REHASH_BATCH', enable='-DCACHELOT_DICT_REHASH_BATCH=1 in the compile flags of the harnesses that use it (specs.py)', source_commits=[specs.HOOK_COMMIT]),
         checks=checks, not_applicable=na, notes='specs.py holds the property texts, harness parameters and bounds; gen.py writes this file and properties.jsonl.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
