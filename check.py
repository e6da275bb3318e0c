#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]: seeded simulation of one property of the code in /repo.

Builds the property's driver from the current tree, runs its cases on all cores, checks that the
simulation is deterministic, and for a violation minimises its case and its schedule and fault
choices, writes the replay file and verifies that fresh processes reproduce it exactly.
Exit: 0 held on everything explored, 1 violated (with a VIOLATION line), 3 the check itself failed."""
import collections, json, os, re, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
CONF = json.load(open(os.path.join(HERE, 'checks.json')))
OUT = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))


def fail(msg):
    print(f'ERROR: {msg}')
    sys.exit(3)


class Replay:
    """One case: parameters, operations, and either its seed or an explicit list of choices."""

    def __init__(self, exe, text):
        self.exe, self.driver, self.seed, self.p, self.simplest, self.ops = exe, '', 0, {}, {}, []
        self.choices, self.listed = [], False
        for l in text.splitlines():
            w = l.split()
            if not w:
                continue
            if w[0] == 'driver':
                self.driver = w[1]
            elif w[0] == 'seed':
                self.seed = int(w[1])
            elif w[0] == 'p':
                self.p[w[1]] = int(w[2])
                if len(w) > 4:
                    self.simplest[w[1]] = int(w[4])
            elif w[0] == 'op':
                self.ops.append([int(x) for x in w[1:]])

    def text(self):
        t = [f'driver {self.driver}', f'seed {self.seed}']
        for k, v in sorted(self.p.items()):
            t.append(f'p {k} {v}' + (f' simplest {self.simplest[k]}' if k in self.simplest else ''))
        t += ['op ' + ' '.join(map(str, o)) for o in self.ops]
        t.append('mode ' + ('list' if self.listed else 'seed'))
        t += [f'choice {k} {i} {v}' for k, i, v in self.choices]
        return '\n'.join(t) + '\n'

    def run(self, limit=60, want_choices=False, path=None):
        if path is None:
            fd, path = tempfile.mkstemp(prefix='replay.')
            os.write(fd, self.text().encode())
            os.close(fd)
            tmp = path
        else:
            tmp = None
        try:
            o = subprocess.run([self.exe, 'replay', '--file', path, '--limit', str(limit), '--choices', '1' if want_choices else '0'],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode(errors='replace')
        finally:
            if tmp:
                os.unlink(tmp)
        lines = o.splitlines()
        try:
            r = json.loads(lines[0])
        except Exception:
            return {'outcome': 'error', 'cls': '', 'sig': '', 'msg': 'no result', 'hash': ''}
        if want_choices:
            r['choices'] = [(w[1], int(w[2]), int(w[3])) for w in (l.split() for l in lines[1:]) if w and w[0] == 'choice']
        return r

    def copy(self):
        c = Replay(self.exe, '')
        c.driver, c.seed, c.p, c.simplest = self.driver, self.seed, dict(self.p), self.simplest
        c.ops, c.choices, c.listed = [list(o) for o in self.ops], list(self.choices), self.listed
        return c


def minimise(r, key, budget, limit):
    """Shrinks operations and parameters, then the explicit schedule and fault choices, keeping the violation."""
    end = time.time() + budget

    def still(c):
        x = c.run(limit)
        return x['outcome'] == 'violation' and (x['cls'], x['sig']) == key

    def ddmin(get, put):
        nonlocal r
        n = 2
        while time.time() < end:
            items = get(r)
            if not items:
                return
            size, changed, i = max(1, -(-len(items) // n)), False, 0
            while i < len(items) and time.time() < end:
                c = r.copy()
                put(c, items[:i] + items[i + size:])
                if still(c):
                    r, items, changed = c, get(c), True
                else:
                    i += size
            if not changed:
                if size == 1:
                    return
                n = min(2 * n, len(items))

    def params():
        nonlocal r
        changed = False
        for k in sorted(r.p):
            if time.time() > end:
                break
            s = r.simplest.get(k)
            if s is None or r.p[k] == s:
                continue
            lo = s
            for v in (s, s + (r.p[k] - s) // 2, r.p[k] - 1 if r.p[k] > s else r.p[k] + 1):
                if v == r.p[k]:
                    continue
                c = r.copy()
                c.p[k] = v
                if still(c):
                    r, changed = c, True
                    break
        return changed

    ddmin(lambda x: x.ops, lambda c, v: setattr(c, 'ops', v))
    while params() and time.time() < end:
        pass
    ddmin(lambda x: x.ops, lambda c, v: setattr(c, 'ops', v))
    full = r.run(limit, want_choices=True)
    if full['outcome'] == 'violation' and full.get('choices') is not None and not full.get('truncated'):
        c = r.copy()
        c.listed, c.choices = True, full['choices']
        if still(c):
            e = c.copy()
            e.choices = []
            if still(e):
                return e
            r = c
            end = max(end, time.time() + budget / 2)
            ddmin(lambda x: x.choices, lambda c, v: setattr(c, 'choices', v))
    return r


def resolve(exe, msg):
    """Names the source lines of the code addresses in a message."""
    for off in sorted(set(re.findall(r'exe\+(0x[0-9a-f]+)', msg)))[:4]:
        try:
            o = subprocess.run(['addr2line', '-Cfpe', exe, off], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip()
        except OSError:
            return msg
        if o:
            msg = msg.replace(f'exe+{off}', o.splitlines()[0][:200])
    return msg


def known_findings(prop):
    f, res = os.path.join(HERE, 'known-findings.txt'), []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'finding: property=(\S+) class=(.*?) signature=(.*?) :: (.*)', l.rstrip('\n'))
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    opt = dict(zip(args[1::2], args[2::2]))
    tier = opt.get('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(opt.get('--seed', os.environ.get('VERIF_SEED', '1')))
    conf = next((c for c in CONF['checks'] if c['property'] == prop), None)
    if not conf:
        fail(f'no check for {prop}')
    tnum = 1 if tier == 'thorough' else 0
    progs = []
    for p in conf['parts']:
        if p['prog'] not in progs:
            progs.append(p['prog'])
    builds = [(p, subprocess.Popen([os.path.join(HERE, 'build.sh'), p, os.path.join(HERE, 'drivers', p + '.cpp')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for p in progs]
    for p, b in builds:
        o = b.communicate()[0].decode(errors='replace')
        if b.returncode:
            print(o[-3000:])
            fail(f'the driver {p} does not build against the current tree')
    tb = time.time() - t0
    known = known_findings(prop)
    workers = int(opt.get('--workers', os.cpu_count() or 8))
    limit = 60 if tnum == 0 else 120
    tmp = tempfile.mkdtemp(prefix='vcheck.')
    kf = os.path.join(tmp, 'known')
    with open(kf, 'w') as f:
        for c, s, _ in known:
            f.write(f'{c}\t{s}\n')
    total, counters, samples, viols, errors, seen_known, nondet, perpart = collections.Counter(), collections.Counter(), [], [], [], set(), 0, []
    cross = 0
    for pi, part in enumerate(conf['parts']):
        exe = os.path.join(OUT, part['prog'])
        count = part['thorough' if tnum else 'quick']
        cap = part.get('cap', 150 if tnum == 0 else 1500)
        per = max(1, count // workers)
        base = seed * 1000003 + pi * 7919 + 1

        def cmd(start, step, n, out, time_cap):
            return [exe, 'run', '--driver', part['driver'], '--seed', str(base), '--start', str(start), '--step', str(step), '--count', str(n), '--tier', str(tnum), '--known', kf,
                    '--maxviol', str(part.get('maxviol', 1)), '--twice', '50', '--hashes', '4', '--limit', str(limit), '--time', str(time_cap), '--out', out]
        ps = []
        for w in range(workers):
            out = os.path.join(tmp, f'{pi}.{w}')
            ps.append((subprocess.Popen(cmd(w, workers, per, out, cap), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
        hashes, pc = {}, collections.Counter()
        for p, out in ps:
            p.wait()
            got = False
            for l in open(out) if os.path.exists(out) else []:
                d = json.loads(l)
                if d['type'] == 'violation':
                    viols.append((exe, d))
                elif d['type'] == 'error':
                    errors.append(d['result']['msg'])
                elif d['type'] == 'nondet':
                    nondet += 1
                elif d['type'] == 'known':
                    seen_known.add(d['key'])
                elif d['type'] == 'hash':
                    hashes[d['index']] = d['hash']
                elif d['type'] == 'sample' and len(samples) < 6 and sum(s['driver'] == part['driver'] for s in samples) < 2:
                    samples.append({'driver': part['driver'], 'index': d['index'], 'case': d['case'].splitlines(), 'steps': d['steps'], 'switches': d['switches'], 'trace_hash': d['hash']})
                elif d['type'] == 'summary':
                    got = True
                    for k in ('runs', 'steps', 'simtime', 'switches', 'nondet', 'rechecked', 'terminated', 'distinct', 'nontrivial'):
                        pc[k] += d[k]
                    pc['maxsteps'] = max(pc['maxsteps'], d['maxsteps'])
                    for k, n in d['counters'].items():
                        counters[k] += n
            if not got:
                errors.append(f'a worker of {part["driver"]} ended with status {p.returncode}')
        # the same cases in other processes, started one by one
        for idx in sorted(hashes)[:6]:
            out = os.path.join(tmp, 'x')
            subprocess.run(cmd(idx, 1, 1, out, 100), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for l in open(out):
                d = json.loads(l)
                if d['type'] == 'hash':
                    cross += 1
                    if d['hash'] != hashes[idx]:
                        nondet += 1
        ms = max(total['maxsteps'], pc.pop('maxsteps', 0))
        total.update(pc)
        total['maxsteps'] = ms
        perpart.append({'driver': part['driver'], 'runs': pc['runs'], 'distinct_nontrivial': pc['nontrivial']})
        if viols or errors:
            break
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    search = time.time() - t0 - tb
    # violations: listed ones are findings, the others are minimised and verified
    status, lines, reported = 0, [], 0
    kset = {(c, s): m for c, s, m in known}
    viols.sort(key=lambda v: len(v[1]['choices']))
    rd = os.path.join(os.environ.get('VERIF_REPLAYS', os.path.join(HERE, 'replays')))
    done = set()
    for exe, d in viols:
        key = (d['result']['cls'], d['result']['sig'])
        if key in kset:
            seen_known.add(f'{key[0]}\t{key[1]}')
            continue
        if key in done or reported >= 3:
            continue
        done.add(key)
        r = Replay(exe, d['case'])
        a, b = r.run(limit), r.run(limit)
        if key[0] == 'hang' and 'wall-clock' in d['result']['msg'] and a['cls'] == b['cls'] == 'hang':
            # stuck in code without any access to memory: nothing to minimise against in reasonable time
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f'{prop}-{seed}-{d["index"]}-{reported}.replay')
            with open(path, 'w') as f:
                f.write(f'# property {prop}: hang: {key[1]}\n# replay: {HERE}/replay.sh {path}\n# program {os.path.basename(exe)}\n' + r.text())
            reported += 1
            status = 1
            lines.append(f'VIOLATION property={prop} replay={path}')
            lines.append(f'  hang: {a["msg"]} [while {a.get("ctx", "")[:200]}] (seed {seed}, case {d["index"]})')
            continue
        if not (a['outcome'] == b['outcome'] == 'violation' and (a['cls'], a['sig']) == key and (b['cls'], b['sig']) == key and a['hash'] == b['hash'] == d['result']['hash']):
            if key[0] == 'hang' and 'wall-clock' in d['result']['msg']:
                errors.append('a run exceeded its wall-clock bound and did not when repeated')
            else:
                errors.append(f'violation {key} of case {d["index"]} does not reproduce: the simulation is not deterministic there')
            continue
        m = minimise(r, key, 40 if tnum == 0 else 120, limit)
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{prop}-{seed}-{d["index"]}-{reported}.replay')
        x = m.run(limit)
        with open(path, 'w') as f:
            f.write(f'# property {prop}: {key[0]}: {key[1]}\n# {resolve(exe, x["msg"])}\n# replay: {HERE}/replay.sh {path}\n# program {os.path.basename(exe)}\n# trace hash {x["hash"]}\n')
            f.write(m.text())
        y, z = m.run(limit, path=path), m.run(limit, path=path)
        if not (y['outcome'] == z['outcome'] == 'violation' and y['hash'] == z['hash'] == x['hash'] and y['msg'] == z['msg'] == x['msg']):
            errors.append(f'the minimised replay of {key} does not reproduce exactly')
            continue
        reported += 1
        status = 1
        lines.append(f'VIOLATION property={prop} replay={path}')
        lines.append(f'  {key[0]}: {resolve(exe, x["msg"])[:600]} [while {x.get("ctx", "")[:200]}] (seed {seed}, case {d["index"]}, {len(m.ops)} operations, {len(m.choices)} schedule and fault choices left)')
    for c, s, m in known:
        if f'{c}\t{s}' in seen_known:
            print(f'KNOWN-FINDING: property={prop} {m}')
    if nondet:
        errors.append(f'{nondet} runs gave another trace when repeated')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total['runs'], 'distinct_nontrivial': total['nontrivial'],
            'rule': conf['rule'],
            'samples': samples,
            'simulated_runs_per_hour': round(total['runs'] / max(search, 1e-3) * 3600),
            'seeds_per_hour': round(total['runs'] / max(search, 1e-3) * 3600),
            'distinct_schedules_or_traces': total['distinct'],
            'distinct_measure': 'hash of the case and of every scheduling, delay and fault choice of the run',
            'scheduler_steps': total['steps'], 'longest_run_steps': total['maxsteps'], 'context_switches': total['switches'],
            'simulated_seconds': total['simtime'] / 1e9,
            'runs_ended_by_permitted_termination': total['terminated'],
            'faults_and_events': dict(sorted(counters.items())),
            'determinism': {'runs_repeated_in_process': total['rechecked'], 'runs_repeated_in_other_processes': cross, 'differences': nondet},
            'parts': perpart,
            'real_code': conf.get('real', CONF['real']), 'stubs': conf.get('stubs', CONF['stubs']),
            'build_s': round(tb, 1),
        },
        'assumptions': conf.get('assumptions', []) + CONF['assumptions'],
        'wall_s': round(time.time() - t0, 2),
        'violations': [l for l in lines if l.startswith('VIOLATION')],
        'known_findings': sorted(seen_known),
        'errors': errors,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print(f'{prop} ({tier}, seed {seed}): {total["runs"]} simulated runs, {total["nontrivial"]} distinct and non-trivial, {total["switches"]} context switches, {search:.1f} s of search after {tb:.1f} s of building')
    if status:
        sys.exit(1)
    if errors:
        fail('; '.join(sorted(set(errors))[:5]))
    if total['runs'] == 0 or total['nontrivial'] * 20 < total['runs']:
        fail('hardly any run was non-trivial')
    sys.exit(0)


if __name__ == '__main__':
    main()
