#!/usr/bin/env python3
"""writes MANIFEST.json from plan.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    s = plan.PLAN.get(i)
    if not s:
        na.append(dict(property=i, reason=plan.NOT_CLAIMED.get(i, 'check not built yet')))
        continue
    checks.append(dict(property=i, quick_cmd='python3 vp/run.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 vp/run.py ' + i,
                       evidence_file='evidence/%s.json' % i, technique=s['technique'], level=s.get('level', 'exploration'), level_note=s['level_note']))
m = dict(version=1, setup_cmd='python3 vp/setup.py', checks=checks, not_applicable=na,
         hooks=dict(guard='DISCOTEC_VERIF', enable='compiled with -DDISCOTEC_VERIF by vp/build.py (no source of /repo uses it: all monitoring is by interposition and the public interface)', source_commits=[]),
         notes='see DESIGN.md; known findings in known_findings.jsonl')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
