#!/usr/bin/env python3
import json, os, sys, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import PLAN, TECH, NOTE, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
hooks = [l.split()[0] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines() if ' hook:' in l]
m = dict(version=1, setup_cmd='python3 build.py ' + ' '.join(sorted({w[1] for s in PLAN.values() for w in s['worlds']})),
         hooks=dict(guard='FPTU_SIM', enable='build.py compiles the sources of /repo with -DFPTU_SIM=1', source_commits=hooks),
         checks=[], not_applicable=[])
for p in props:
    if p in PLAN:
        m['checks'].append(dict(property=p, quick_cmd=f'python3 check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {p}',
                                technique='deterministic simulation: ' + TECH[p], level=PLAN[p].get('level', 'exploration'), level_note=PLAN[p].get('note', NOTE),
                                evidence_file=f'evidence/{p}.json'))
    else:
        m['not_applicable'].append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'check still under construction')))
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
