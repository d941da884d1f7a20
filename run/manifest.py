#!/usr/bin/env python3
"""Write MANIFEST.json from jobs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, jobs
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(build.V, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 run/setup.py',
    'checks': [{
        'property': p,
        'quick_cmd': f'python3 run/check.py {p}',
        'thorough_cmd': f'python3 run/check.py {p} --tier thorough',
        'technique': 'symbolic execution of the LLVM bitcode of the real code, decided by z3 (QF_BV)',
        'level': 'other',
        'level_note': f'Bounded solver-based checking of the real code ({jobs.PROPS[p].what}). Within the bounds (' + '; '.join(jobs.PROPS[p].bounds)
        + ') every path was explored and each assertion holds for all input values; counterexamples are replayed natively. Trusted: the executor in engine/, z3, the models of blake3, the codecs and the file system ('
        + '; '.join(jobs.ASSUME + jobs.PROPS[p].assume) + '). Outside: ' + '; '.join(jobs.PROPS[p].outside) + '.',
    } for p in ids if p in jobs.PROPS],
    'not_applicable': [{'property': p, 'reason': NA.get(p, 'not built yet')} for p in ids if p not in jobs.PROPS],
    'notes': 'See DESIGN.md. No hooks in /repo: the harness uses the public API only. Known findings: known_findings.txt.',
}
json.dump(m, open(os.path.join(build.V, 'MANIFEST.json'), 'w'), indent=1)
