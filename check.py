#!/usr/bin/env python3
"""Runs the simulations of one property.

  check.py PROPERTY              exit 0: held on everything explored
                                 exit 1: VIOLATION property=... replay=...
                                 exit 2: the check itself failed
  check.py --replay FILE         re-executes a recorded violation
  check.py PROPERTY --runs N --first SEED
"""
import argparse
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DST_REPO', '/repo')
MAIN = os.path.join(HERE, 'dst', 'main.py')
sys.path.insert(0, HERE)
import budget

JAVA = ['java', '-Xss4m', '-Xmx1400m', '-XX:+UseSerialGC', '-XX:+UnlockExperimentalVMOptions', '-XX:hashCode=3', '-XX:CICompilerCount=2',
        '-cp', '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar', '-Dpython.home=/usr/share/jython', '-Dpython.cachedir.skip=true',
        '-Dpython.path=%s:/opt/vp/pyogp/site' % REPO, 'org.python.util.jython', '-B', MAIN]


def environ(scratch):
    env = dict(os.environ)
    for k in ('JYTHONPATH', 'PYTHONPATH', 'CLASSPATH', 'JYTHON_HOME', 'JAVA_TOOL_OPTIONS', '_JAVA_OPTIONS'):
        env.pop(k, None)
    env.update(LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', DST_SCRATCH=scratch, DST_REPO=REPO)
    return env


class Worker(object):
    def __init__(self, args, scratch, q):
        self.events, self.q = [], q
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(JAVA + [str(a) for a in args], stdout=subprocess.PIPE, stderr=self.err, stdin=subprocess.DEVNULL,
                                  env=environ(scratch), cwd=scratch)
        threading.Thread(target=self._read, daemon=True).start()

    def _read(self):
        for line in self.p.stdout:
            try:
                ev = json.loads(line)
            except ValueError:
                continue
            self.events.append(ev)
            self.q.put((self, ev))
        self.p.wait()
        self.q.put((self, None))

    def stderr(self):
        self.err.seek(0)
        return self.err.read().decode('utf-8', 'replace')[-2000:]

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    out = []
    for f in json.load(open(path)).get('findings', []):
        if f['property'] == pid:
            out.append(f)
    return out


def replay(path, scratch, timeout=300):
    q = queue.Queue()
    w = Worker(['replay', path], scratch, q)
    end = time.time() + timeout
    while True:
        try:
            _, ev = q.get(timeout=max(0.1, end - time.time()))
        except queue.Empty:
            w.kill()
            return None
        if ev is None:
            return next((e for e in w.events if e['k'] == 'replay'), None)


def confirm(path, scratch):
    """the path of a replay file which reproduces in a fresh process"""
    for p in (path + '.min', path):
        if not os.path.exists(p):
            continue
        r = replay(p, scratch)
        if r and r['reproduced']:
            if p != path:
                os.replace(p, path)
            return path, r
    d = json.load(open(path))
    if d.get('prelude') and d['violation']['cls'] != 'hang':
        d['use_prelude'] = True
        json.dump(d, open(path, 'w'), indent=1, sort_keys=True)
        r = replay(path, scratch)
        if r and r['reproduced']:
            return path, r
    return path, None


def run_check(pid, tier, seed, runs=None, first=None):
    t0 = time.time()
    prof = budget.BUDGET[pid]
    count = runs or prof[tier]
    wall = prof.get('wall', budget.WALL)[tier]
    ncpu = min(8, os.cpu_count() or 1)
    nworkers = max(1, min(ncpu, (count + 9) // 10))
    base = first if first is not None else seed * 1000003 % (1 << 40)
    outdir = os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='dst-')
    code, found, errors, others = 0, [], [], []
    workers = []
    q = queue.Queue()
    try:
        for i in range(nworkers):
            n = (count - i + nworkers - 1) // nworkers
            workers.append(Worker(['run', pid, base + i, n, nworkers, wall, outdir], scratch, q))
        alive = len(workers)
        deadline = t0 + wall * 1.6 + 240
        stopping = None
        while alive:
            try:
                w, ev = q.get(timeout=1.0)
            except queue.Empty:
                w = ev = None
            if w is not None and ev is None:
                alive -= 1
                if not any(e['k'] in ('done', 'error') for e in w.events) and stopping is None:
                    errors.append('a worker ended early: rc %s %s' % (w.p.returncode, w.stderr()))
            elif ev is not None:
                if ev['k'] == 'error':
                    errors.append(ev['msg'])
                elif ev['k'] == 'other':
                    others.append(ev)
                elif ev['k'] == 'violation':
                    found.append(ev)
                    if stopping is None:
                        # the others may finish what they have found, briefly
                        stopping = time.time() + 1
            now = time.time()
            if stopping is not None and now > stopping or now > deadline:
                if stopping is None:
                    errors.append('time ran out')
                for x in workers:
                    x.kill()
                stopping = stopping or now
        result = None
        if found:
            found.sort(key=lambda e: (not e['minimised'], e['seed']))
            for ev in found:
                path, r = confirm(ev['path'], scratch)
                if r is not None:
                    result = (path, ev, r)
                    break
            if result is None:
                errors.append('violation of seed %s (%s: %s) does not reproduce' % (found[0]['seed'], found[0]['cls'], found[0]['msg']))
        # one sampled run again, in a fresh process, must give the same history
        if tier == 'thorough' and not found and not errors:
            errors.extend(check_repeat(pid, base, scratch))
        evidence(pid, tier, seed, workers, t0, nworkers, count, base, found, others, result)
        known = known_findings(pid)
        if result:
            path, ev, r = result
            hit = next((k for k in known if k['cls'] == r['cls'] and k['match'] in r['msg']), None)
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (pid, hit['what']))
            else:
                print('%s: %s' % (r['cls'], r['msg']))
                print('seed %s, reproduced in a fresh process: class %s, identical history %s' % (ev['seed'], r['same_class'], r['same_trace']))
                print('VIOLATION property=%s replay=%s' % (pid, path))
                code = 1
        elif errors:
            for e in errors[:3]:
                print('ERROR %s: %s' % (pid, e), file=sys.stderr)
            code = 2
        kinds = {}
        for e in others:
            kinds.setdefault((e['cls'], ' '.join(e['tags'])), []).append(e['seed'])
        for (cls, tags), seeds in sorted(kinds.items())[:8]:
            print('beside the point: %s (%s) in %d runs, first seed %s' % (cls, tags, len(seeds), min(seeds)))
        if code == 0:
            for k in known:
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            print('%s: held on %d runs in %.0f s' % (pid, sum(e['runs'] for w in workers for e in w.events if e['k'] == 'done'), time.time() - t0))
    finally:
        for w in workers:
            w.kill()
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def check_repeat(pid, base, scratch):
    out = []
    for _ in range(2):
        q = queue.Queue()
        w = Worker(['hashes', pid, base, 12], scratch, q)
        while q.get()[1] is not None:
            pass
        out.append([(e['seed'], e['h'], e['steps']) for e in w.events if e['k'] == 'hash'])
    if out[0] != out[1] or len(out[0]) != 12:
        return ['not deterministic: %s / %s' % (out[0], out[1])]
    return []


def evidence(pid, tier, seed, workers, t0, nworkers, count, base, found, others, result):
    done = [e for w in workers for e in w.events if e['k'] == 'done']
    stats, notes = {}, {}
    for e in done:
        for d, s in ((stats, e['stats']), (notes, e['notes'])):
            for k, n in s.items():
                d[k] = d.get(k, 0) + n
    tot = lambda k: sum(e[k] for e in done)
    wall = time.time() - t0
    traces = set(h for e in done for h in e['trace'])
    scheds = set(h for e in done for h in e['sched'])
    info = budget.BUDGET[pid]
    runs = tot('runs')
    sample = [e['sample'] for e in done if e['sample']][:2]
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(traces),
        rule='Each case is a plan (configuration, operations, subscriptions and handler behaviours, fault rates) generated from its seed, executed under decisions '
             '(scheduling, delays, faults) drawn from the same seed. Non-trivial: the run reached what the property is about (%s). Distinct: no two counted runs have the '
             'same hash over the complete recorded history (datagrams, requests, deliveries, with times).' % info['nontrivial'],
        samples=sample,
        simulated_worlds=tot('worlds'),
        seeds='%d..%d' % (base, base + count - 1),
        runs_per_hour=int(runs * 3600 / max(wall, 0.1)),
        simulated_hours=round(tot('sim_time') / 3600.0, 3),
        scheduling_steps=tot('steps'),
        operations_planned=tot('ops'),
        distinct_interleavings=len(scheds),
        distinct_interleavings_measure='hash of the sequence of coroutines picked whenever more than one was runnable',
        faults_injected=dict((k[6:], n) for k, n in sorted(stats.items()) if k.startswith('fault.')),
        other_events=dict((k, n) for k, n in sorted(stats.items()) if not k.startswith('fault.')),
        reached=dict(sorted(notes.items())),
        violations_of_other_properties=len(others),
        real_code=info['real'],
        stubbed='eventlet (coroutines run on a baton-passing scheduler), UDP sockets and network, TCP sockets and HTTP servers, the remote peers (independent codec), clock; '
                'stdlib urllib2/httplib and llbase are the real ones',
        processes=nworkers,
    )
    if result:
        cov['violation'] = dict(seed=result[1]['seed'], cls=result[2]['cls'], msg=result[2]['msg'], replay=result[0])
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov, wall_s=round(wall, 1), violations=len(found),
              assumptions=['coroutines switch only at socket operations, sleeps and explicit yields, as with eventlet',
                           'the code runs under Jython 2.7 instead of CPython 2',
                           'the reference codec and the models in /verif/dst describe the protocol rightly'])
    path = os.path.join(HERE, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(path + '.tmp', path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--runs', type=int)
    ap.add_argument('--first', type=int)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    if a.replay:
        scratch = tempfile.mkdtemp(prefix='dst-')
        try:
            r = replay(os.path.abspath(a.replay), scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if r is None:
            print('the replay did not finish')
            return 2
        print(json.dumps(r))
        if r['reproduced']:
            print('VIOLATION property=%s replay=%s' % (json.load(open(a.replay))['property'], a.replay))
            return 1
        return 0
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    except ValueError:
        seed = 1
    return run_check(a.property, tier, seed, a.runs, a.first)


if __name__ == '__main__':
    sys.exit(main())
