#!/usr/bin/env python3
"""write MANIFEST.json: one check per property that has checks/<id>.py; the others are listed as not applicable (yet)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    f = f'{V}/checks/{i.lower()}.py'
    if os.path.exists(f):
        doc = re.match(r'\s*"""(.*?)"""', open(f).read(), re.S)
        note = ' '.join((doc.group(1) if doc else '').split())
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique='TLA+ specification checked with TLC; TLC trace validation of the real code against it',
                           level='model_checking',
                           level_note=note + ' Bounded: the specification is checked exhaustively within the stated model bounds; the implementation is judged on the '
                           'inputs and histories enumerated or generated (seeded). Trusts TLC, the C++ harness that records calls, and the build flags used.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='TLA+ with TLC; see DESIGN.md. No hooks: the library is sequential and every property is observed through its public interface.'),
          open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks;', len(na), 'not claimed')
