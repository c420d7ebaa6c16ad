#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the drivers that exist."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    d = f'{V}/drivers/{i}.cpp'
    if i in NA or not os.path.exists(d):
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
        continue
    src = open(d).read()
    tsan = re.search(r'^// BUILD:.*tsan', src, re.M)
    shim = re.search(r'^// BUILD:.*shim', src, re.M)
    m = re.search(r'^// NOTE: (.*)$', src, re.M)
    checks.append(dict(
        property=i, quick_cmd=f'python3 run.py {i} --tier quick', thorough_cmd=f'python3 run.py {i} --tier thorough',
        evidence_file=f'evidence/{i}.json',
        technique='runtime monitoring: ' + (m.group(1) if m else 'generated workloads on the sanitized library, results judged by independent oracles'),
        level='exploration',
        level_note='Holds on the generated executions observed, judged by an oracle written independently of the code; '
        + ('ThreadSanitizer' if tsan else 'ASan+UBSan') + ' watches every one.'
        + (' steering_functions and or-tools are stand-ins (shim/).' if shim else '')))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
