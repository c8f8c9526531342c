#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the plan and the list of properties.
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
import plan
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in plan.PLAN:
        q = plan.PLAN[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i, level=q['level'],
                           technique=q.get('technique', 'Quint specification of the library as a state machine; recorded traces of the real code validated against it step by step'),
                           level_note=q.get('note', 'Every recorded call is decided by an exact executable specification (unbounded integers, rigorous error balls) written independently of the code; which calls are recorded is a seeded sample of adversarial inputs and histories, not all inputs. Trusts the Quint evaluator and the recorder.')))
    else: na.append(dict(property=i, reason=plan.NA.get(i, 'The check of this property is under construction.')))
m = dict(version=1, setup_cmd='cargo build --release --offline --quiet --manifest-path harness/Cargo.toml', checks=checks, not_applicable=na,
         notes='Specification: spec/*.qnt (Quint). Driver and recorder: harness/ (public API only, no hooks in /repo). check.py runs both and compares. Genuine defects found: known-findings.txt and the fix: commits of /repo.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
