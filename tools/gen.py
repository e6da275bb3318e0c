#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from the one description in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
sys.dont_write_bytecode = True
import props

with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        mech = [{'name': n, 'where': w} for n, w in p['mechanism']]
        a = {'files': p['files'], 'mechanism': mech}
        if p.get('state'):
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p.get('observe'):
            a['observe_at'] = p['observe']
        a['hook_needed'] = None
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')

checks, manifest, na = [], [], []
for p in props.PROPS:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    c = {'property': p['id'], 'parts': p['parts'], 'rule': p['rule']}
    for k in ('assumptions', 'real', 'stubs'):
        if k in p:
            c[k] = p[k]
    checks.append(c)
    manifest.append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} --tier quick', 'thorough_cmd': f'python3 check.py {p["id"]} --tier thorough', 'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
json.dump({'real': props.REAL, 'stubs': props.STUBS, 'assumptions': props.ASSUMPTIONS, 'checks': checks}, open(os.path.join(here, 'checks.json'), 'w'), indent=1)
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh',
           'hooks': {'guard': 'none: the simulator interposes on the compiler, OpenMP, MPI, allocation, file, clock and BLAS interfaces, so /repo carries no hook', 'enable': 'build.sh compiles the drivers with -fsanitize=thread (calls answered by the simulator) and the simulated mpi.h', 'source_commits': []},
           'checks': manifest, 'not_applicable': na, 'notes': props.NOTES}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(props.PROPS), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
