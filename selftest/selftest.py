#!/usr/bin/env python3
"""The simulator must find what is planted in the smoke programs, stay quiet on the good ones, and repeat itself."""
import json, os, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exe = os.path.join(os.environ.get('VERIF_BUILD', os.path.join(here, 'build')), 'smoke')
want = {'racy': 'race', 'lost': 'wrong', 'oob': None, 'mpi_mismatch': None, 'good': '', 'mpi_good': '', 'mpi_nonblocking': '', 'mpi_early': 'race', 'std_threads': '', 'std_racy': 'race', 'mpi_lost': 'mpi-usage', 'tasks': ''}
bad = 0
for d in subprocess.run([exe, 'list'], stdout=subprocess.PIPE).stdout.decode().split():
    seen = []
    for rep in range(2):
        fd, out = tempfile.mkstemp()
        os.close(fd)
        subprocess.run([exe, 'run', '--driver', d, '--seed', '5', '--count', '60', '--maxviol', '100', '--hashes', '60', '--twice', '7', '--out', out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        rows = [json.loads(l) for l in open(out)]
        os.unlink(out)
        seen.append(rows)
    v = [r['result']['cls'] for r in seen[0] if r['type'] == 'violation']
    h = [[(r['index'], r['hash']) for r in s if r['type'] == 'hash'] + [(r['index'], r['result']['hash']) for r in s if r['type'] == 'violation'] for s in seen]
    nd = sum(r['type'] == 'nondet' for s in seen for r in s)
    ok = h[0] == h[1] and nd == 0
    if d in want:
        if want[d] == '':
            ok = ok and not v
        elif want[d]:
            ok = ok and want[d] in ' '.join(v)
        else:
            ok = ok and len(v) > 0
    print(f'selftest {d}: violations {sorted(set(v))}, {len(h[0])} traces, repeatable {h[0] == h[1] and nd == 0}: {"ok" if ok else "FAILED"}')
    bad += not ok
sys.exit(1 if bad else 0)
