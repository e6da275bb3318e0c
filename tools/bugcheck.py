#!/usr/bin/env python3
"""bugcheck.py [ID ...]: for planted changes, run the demo without and with the change and the property's quick check with it (in a scratch clone)."""
import json, os, subprocess, sys, tempfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wt = '/tmp/bugwt'
subprocess.run(['rm', '-rf', wt])
subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
nocheck = '--demo' in sys.argv
all_checks = '--all' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(here + '/seeded'))
for i in ids:
    d = f'{here}/seeded/{i}'
    m = json.load(open(d + '/meta.json'))
    subprocess.check_call(['git', '-C', wt, 'checkout', '-q', '.'])
    a = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    subprocess.check_call(['git', '-C', wt, 'apply', d + '/patch.diff'])
    t = time.time()
    b = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(f"{i} {m['property']}: demo unchanged {a.returncode}, changed {b.returncode} ({time.time()-t:.0f} s) {b.stdout.decode(errors='replace').strip().splitlines()[-1:] if b.returncode else ''}", flush=True)
    if a.returncode:
        print(a.stdout.decode(errors='replace')[-1500:])
    if nocheck:
        continue
    props = [c['property'] for c in json.load(open(here + '/checks.json'))['checks']] if all_checks else [m['property']]
    for p in props:
        env = dict(os.environ, REPO=wt, VERIF_BUILD='/tmp/bugbuild', VERIF_SEED='1', VERIF_TIER='quick', VERIF_REPLAYS='/tmp/bugreplays')
        t = time.time()
        c = subprocess.run(['python3', 'check.py', p], cwd=here, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = c.stdout.decode(errors='replace')
        if p == m['property'] or c.returncode:
            print(f"   {p}: exit {c.returncode} in {time.time()-t:.0f} s: {' '.join(l.strip()[:330] for l in o.splitlines() if l.startswith(('VIOLATION', '  ', 'ERROR')))[:800]}", flush=True)
subprocess.run(['rm', '-rf', wt])
