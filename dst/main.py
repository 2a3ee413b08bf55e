"""Worker: runs simulations inside one JVM.

  main.py run PROP FIRST COUNT STRIDE WALL OUTDIR   one JSON line per event on stdout
  main.py replay FILE                               re-executes one recorded run
  main.py hashes PROP FIRST COUNT                   trace hash of every seed
"""
import os
import sys
import json

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import env
env.install()
env.load()
from core import CTX, Choices, Hang, origin
import world as W
import profiles as PR

now = CTX.real_time
OUT = sys.__stdout__


def emit(**kw):
    OUT.write(json.dumps(kw) + '\n')
    OUT.flush()


def plainify(x):
    """what comes back from JSON, with str where possible: plans are always
    used in this form, so that a replay sees exactly the same thing"""
    if isinstance(x, unicode):
        try:
            return x.encode('ascii')
        except UnicodeError:
            return x
    if isinstance(x, dict):
        return dict((plainify(k), plainify(v)) for k, v in x.items())
    if isinstance(x, list):
        return [plainify(v) for v in x]
    return x


class Factory(object):
    """hands out the decisions, one Choices object per simulated world"""

    def __init__(self, seed, recorded=None):
        self.seed, self.recorded, self.made = seed, recorded, []

    def __call__(self):
        rec = None
        if self.recorded is not None:
            i = len(self.made)
            rec = i < len(self.recorded) and self.recorded[i] or {}
        c = Choices(self.seed, rec)
        self.made.append(c)
        return c

    def log(self):
        if self.recorded is not None:
            return self.recorded
        return [c.log for c in self.made]


def execute(prof, plan, seed, recorded=None):
    """(worlds, violation or None, factory)"""
    f = Factory(seed, recorded)
    try:
        worlds, v = prof.execute(plan, f)
    except Hang, e:
        w = CTX.sim.world
        w.viol = [W.Violation(w.ALIVE.split(), 'hang', 'a coroutine (%s) ran for ever without reaching an operation' % e, w.sim.rel())]
        w.hung = True
        return [w], w.viol[0], f
    except Exception, e:
        if not env.of_library(origin()):
            raise
        # the library failed where the application makes its objects
        w = CTX.world
        w.viol = [W.Violation(w.ALIVE.split(), 'raised', repr(e)[:400], w.sim.rel())]
        w.hung = True
        return [w], w.viol[0], f
    return worlds, v, f


def counts(prof, v):
    """does the violation belong to this property?"""
    return v is not None and [t for t in v.tags if t in prof.accept]


def whole_hash(worlds):
    h = 0
    for w in worlds:
        h = (h * 1000003 + w.trace_hash()) & 0xffffffffffff
    return h


def record(prof, seed, plan, choices, v, worlds, tries):
    return dict(property=prof.pid, seed=seed, plan=plan, choices=choices, violation=dict(cls=v.cls, msg=v.msg, tags=list(v.tags), t=round(v.t, 6)),
                trace_hash='%012x' % whole_hash(worlds), minimise_runs=tries, trace=[repr(e) for e in worlds[-1].sim.log[-60:]])


def minimise(prof, seed, plan, v, limit):
    """shrink operations, configuration and decisions while the same class of
    violation remains"""
    t_end = now() + limit
    best = dict(plan=plan, rec=None, v=v)
    tries = [0]

    def test(p, rec):
        tries[0] += 1
        worlds, x, f = execute(prof, p, seed, rec)
        if x is not None and x.cls == 'hang':
            raise Hang('while minimising')
        if x is not None and x.cls == v.cls and counts(prof, x):
            best.update(plan=p, rec=f.log(), v=x, worlds=worlds)
            return True
        return False

    def ddmin(items, ok):
        """items: list; ok(list) -> bool"""
        n = 2
        while len(items) >= 1 and now() < t_end:
            size = max(1, len(items) / n)
            i, hit = 0, False
            while i < len(items) and now() < t_end:
                rest = items[:i] + items[i + size:]
                if ok(rest):
                    items, hit = rest, True
                else:
                    i += size
            if hit and size > 1:
                n = max(2, n)
            elif size == 1:
                if not hit:
                    break
            else:
                n *= 2
        return items

    if not test(plan, None):
        return None, tries[0]
    ddmin(plan['ops'], lambda ops: test(dict(best['plan'], ops=ops), None))
    # subscriptions, sessions' extras and fault rates
    for path in (('net',), ('http',)):
        for k in sorted(best['plan']['cfg'].get(path[0], {})):
            if now() > t_end:
                break
            c = json.loads(json.dumps(best['plan']['cfg'].get(path[0], {})))
            c.pop(k)
            test(dict(best['plan'], cfg=dict(best['plan']['cfg'], **{path[0]: plainify(c)})), None)
    for i in range(len(plan['cfg'].get('sessions', []))):
        def with_subs(subs):
            ss = list(best['plan']['cfg']['sessions'])
            ss[i] = dict(ss[i], subs=subs)
            return dict(best['plan'], cfg=dict(best['plan']['cfg'], sessions=ss))
        ddmin(best['plan']['cfg']['sessions'][i].get('subs', []), lambda subs: test(with_subs(subs), None))
    # decisions: drop whole labels, then single ones
    rec = best['rec']
    if rec is not None and now() < t_end:
        if test(best['plan'], rec):
            labels = sorted(set([k.split('#')[0] for m in rec for k in m]))

            def keep(ls):
                ls = set(ls)
                return test(best['plan'], [dict((k, x) for k, x in m.items() if k.split('#')[0] in ls) for m in rec])
            ddmin(labels, keep)
            rec = best['rec']
            if sum([len(m) for m in rec]) < 3000:
                keys = sorted(set([k for m in rec for k in m]))

                def keep2(ks):
                    ks = set(ks)
                    return test(best['plan'], [dict((k, x) for k, x in m.items() if k in ks) for m in rec])
                ddmin(keys, keep2)
    return best, tries[0]


def run(pid, first, count, stride, wall, outdir):
    prof = PR.PROFILES[pid]
    t0 = now()
    agg = dict(runs=0, worlds=0, steps=0, switches=0, sim_time=0.0, stats={}, notes={}, sched=set(), trace=set(), nontrivial=0, sample=None, ops=0)
    seed = first
    for i in range(count):
        seed = first + i * stride
        if now() - t0 > wall:
            break
        plan = plainify(json.loads(json.dumps(prof.gen(seed))))
        worlds, v, f = execute(prof, plan, seed)
        agg['runs'] += 1
        agg['ops'] += len(plan['ops'])
        for w in worlds:
            agg['worlds'] += 1
            agg['steps'] += w.sim.steps
            agg['switches'] += w.sim.switches
            agg['sim_time'] += w.sim.rel()
            for d, src in ((agg['stats'], w.sim.stats), (agg['notes'], w.notes)):
                for k, n in src.items():
                    d[k] = d.get(k, 0) + n
        h = whole_hash(worlds)
        agg['sched'].add(worlds[0].sim.sched_hash)
        if prof.nontrivial(worlds):
            agg['trace'].add(h)
        if agg['sample'] is None:
            agg['sample'] = dict(seed=seed, cfg=short(plan['cfg']), ops=plan['ops'][:6], steps=worlds[0].sim.steps, trace_hash='%012x' % h,
                                 tail=[repr(e)[:160] for e in worlds[0].sim.log[-4:]])
        if v is not None and not v.tags:
            emit(k='error', msg='seed %d: %s: %s' % (seed, v.cls, v.msg))
            break
        if counts(prof, v):
            path = os.path.join(outdir, '%s-seed%d.json' % (pid, seed))
            hung = v.cls == 'hang'
            r = None
            emit(k='found', seed=seed, cls=v.cls, msg=v.msg)
            raw = record(prof, seed, plan, None, v, worlds, 0)
            # seeds run before it in this process, in case it depends on them
            raw['prelude'] = [first + j * stride for j in range(i)]
            save(path, raw)
            if not hung:
                try:
                    best, tries = minimise(prof, seed, plan, v, float(os.environ.get('DST_MINIMISE', '40')))
                    if best is not None:
                        r = record(prof, seed, best['plan'], best['rec'], best['v'], best['worlds'], tries)
                        r['original_ops'] = len(plan['ops'])
                        save(path + '.min', r)
                except Hang:
                    pass
            emit(k='violation', path=path, seed=seed, cls=v.cls, msg=v.msg, minimised=r is not None)
            break
        elif v is not None:
            agg['notes']['other_violation'] = agg['notes'].get('other_violation', 0) + 1
            emit(k='other', seed=seed, cls=v.cls, msg=v.msg, tags=list(v.tags))
            if v.cls == 'hang':
                break
    agg['sched'] = list(agg['sched'])
    agg['trace'] = list(agg['trace'])
    emit(k='done', wall=now() - t0, **agg)


def short(cfg):
    c = dict(cfg)
    for k in ('template', 'xml'):
        if c.get(k):
            c[k] = '(%d bytes)' % len(c[k])
    return c


def save(path, r):
    f = open(path, 'w')
    f.write(json.dumps(r, indent=1, sort_keys=True))
    f.close()


def replay(path):
    r = plainify(json.load(open(path)))
    prof = PR.PROFILES[r['property']]
    for s in r.get('use_prelude') and r.get('prelude') or []:
        execute(prof, plainify(json.loads(json.dumps(prof.gen(s)))), s)
    worlds, v, f = execute(prof, r['plan'], r['seed'], r['choices'])
    h = '%012x' % whole_hash(worlds)
    if os.environ.get('DST_TRACE'):
        for e in worlds[-1].sim.log:
            sys.stderr.write('%s\n' % repr(e)[:400])
    emit(k='replay', reproduced=bool(counts(prof, v)), same_class=v is not None and v.cls == r['violation']['cls'],
         same_trace=h == r['trace_hash'], cls=v and v.cls, msg=v and v.msg, t=v and round(v.t, 6), trace_hash=h)


def hashes(pid, first, count):
    prof = PR.PROFILES[pid]
    for s in range(first, first + count):
        worlds, v, f = execute(prof, plainify(json.loads(json.dumps(prof.gen(s)))), s)
        emit(k='hash', seed=s, h='%012x' % whole_hash(worlds), steps=[w.sim.steps for w in worlds], v=v and v.cls)


def main(argv):
    os.environ.setdefault('DST_SCRATCH', '/tmp')
    sys.stdout = sys.stderr = env.Null()
    if argv[0] == 'run':
        run(argv[1], int(argv[2]), int(argv[3]), int(argv[4]), float(argv[5]), argv[6])
    elif argv[0] == 'replay':
        replay(argv[1])
    elif argv[0] == 'hashes':
        hashes(argv[1], int(argv[2]), int(argv[3]))


if __name__ == '__main__':
    code = 0
    try:
        main(sys.argv[1:])
    except BaseException, e:
        import traceback
        emit(k='error', msg=traceback.format_exc()[-3000:])
        code = 2
    os._exit(code)
