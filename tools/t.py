#!/usr/bin/env python3
# t.py PROG DRIVER [seed count tier maxviol [step]]: run a range of cases and print distinct violations (development aid)
import subprocess, json, sys, os, collections
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prog, drv = sys.argv[1], sys.argv[2]
seed = sys.argv[3] if len(sys.argv) > 3 else '1'
count = sys.argv[4] if len(sys.argv) > 4 else '300'
tier = sys.argv[5] if len(sys.argv) > 5 else '0'
maxv = sys.argv[6] if len(sys.argv) > 6 else '40'
ps = []
for w in range(8):
    out = f'/tmp/t.{os.getpid()}.{w}'
    cmd = [f'{os.environ.get("VERIF_BUILD", here + "/build")}/{prog}', 'run', '--driver', drv, '--seed', seed, '--start', str(w), '--step', '8', '--count', str(int(count)//8), '--tier', tier, '--maxviol', maxv, '--twice', '20', '--limit', '120', '--out', out]
    ps.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), out))
v = collections.Counter(); ex = {}; cnt = collections.Counter()
for p, out in ps:
    err = p.communicate()[1].decode()
    if p.returncode not in (0, 1): print('exit', p.returncode, err[-300:])
    for l in open(out):
        d = json.loads(l)
        if d['type'] == 'violation' or d['type'] == 'error':
            r = d['result']; k = (r['outcome'], r.get('cls'), r.get('sig')); v[k] += 1
            if k not in ex or len(d['choices']) < len(ex[k]['choices']): ex[k] = d
        elif d['type'] == 'summary':
            for k in ('runs', 'steps', 'nondet', 'rechecked', 'terminated', 'distinct', 'nontrivial', 'wall', 'switches'): cnt[k] += d[k]
            for k, n in d['counters'].items(): cnt['c.' + k] += n
    os.unlink(out)
print({k: round(n, 2) for k, n in cnt.items()})
for i, (k, n) in enumerate(v.most_common()):
    d = ex[k]; r = d['result']
    f = f'/tmp/v{i}.replay'
    open(f, 'w').write(d['case'] + 'mode seed\n')
    ps = ' '.join(f"{l.split()[1]}={l.split()[2]}" for l in d['case'].splitlines() if l.startswith('p ') and l.split()[2] != l.split()[4 if len(l.split()) > 4 else 2] and not l.startswith('p sched'))
    print(n, k, '|', r.get('msg', '')[:300], '| ctx', r.get('ctx'), '| idx', d['index'], f, '|', ps)
