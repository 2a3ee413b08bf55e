"""One profile per property: which plans are generated for it, how they are
executed, and which violations count."""
import copy

from core import Choices, RNG, mix
import world as W
from gen import Gen, HOT_IN, HOT_OUT
from env import P

PROFILES = {}


class Profile(object):
    """gen(seed) -> plan; execute(plan, choices) -> worlds, violation"""

    accept = ()
    probes = ()

    def gen(self, seed):
        raise NotImplementedError

    def nontrivial(self, worlds):
        """did the run exercise what the property is about?"""
        if not self.probes:
            return True
        return bool([1 for w in worlds for p in self.probes if w.notes.get(p) or w.sim.stats.get(p)])

    def differs(self, worlds, cls, msg):
        w = worlds[-1]
        v = W.Violation([self.pid], cls, msg, w.sim.rel())
        w.viol.append(v)
        return worlds, v

    def execute(self, plan, choices):
        w = W.World(plan, choices()).run()
        return [w], (w.viol[0] if w.viol else None)


def profile(pid):
    def deco(cls):
        PROFILES[pid] = cls()
        cls.pid = pid
        if not cls.__dict__.get('accept'):
            cls.accept = (pid,)
        return cls
    return deco


BEHS = dict(none=0.4, sub=1, unsub=1)
BEHS['yield'] = 3


def bare_ops(g, cfg, n, names_out, s=0, scale=True, conc=False):
    """application code driving a bare dispatcher: one coroutine, or (conc)
    one which receives, one which processes acks, and some which send"""
    rng = g.rng
    conc = conc and rng.below(2)
    poll, rnd, send = s, s, [s]
    if conc:
        poll, rnd, send = '%dpoll' % s, '%dround' % s, ['%dsend%d' % (s, i) for i in range(rng.randint(1, 3))]
    for _ in range(n):
        t = g.when()
        k = rng.below(10)
        if k < 4:
            g.add(t, 'poll', a=poll, s=s, n=rng.choice([1, 2, 50, 5000]))
            if conc and rng.below(2):
                g.add(t, 'round', a=rnd, s=s)
        elif k < 6:
            g.add(t, 'round', a=rnd, s=s)
        else:
            op = g.out_op(names_out, 'send')
            op['p'] = rng.choice(cfg['peers'])['name']
            g.add(t, op, a=rng.choice(send), s=s)
    if scale:
        g.scale(cfg, actors=1, bare=True, a=(poll, rng.choice(send)))
    for t in (g.t_end + 1, g.t_end + 3, g.t_end + 5):
        g.add(t, 'poll', a=poll, s=s, n=5000)
        g.add(t + 0.5, 'round', a=rnd, s=s)


@profile('C01')
class C01(Profile):
    probes = ('sent',)
    def gen(self, seed):
        g = Gen(seed, 'C01')
        rng = g.rng
        if rng.below(4) == 0:
            cfg = g.config(g.many(1, 4), 1, 'bare')
            g.out_names = g.pool(HOT_OUT, 6)
            inn = g.pool(HOT_IN, 6)
            cfg['sessions'][0]['subs'] = g.random_subs(inn, rng.below(5))
            bare_ops(g, cfg, rng.randint(15, 50), g.out_names, conc=True)
            g.peer_traffic(cfg, rng.randint(5, 30), inn)
            g.bad_traffic(cfg, rng.below(8), actors=1, ops=('sendbad', 'sendnohost'))
            g.net_events(cfg, rng.below(3), ('cut', 'senderr', 'presend'))
            return g.finish(cfg, g.t_end + 10, g.t_end)
        cfg = g.config(g.many(1, 4), rng.choice([1, 1, 2]))
        g.out_names = g.pool(HOT_OUT, 6)
        inn = g.pool(HOT_IN, 6)
        for i, sc in enumerate(cfg['sessions']):
            sc['subs'] = g.random_subs(inn, rng.below(6), dict(BEHS, send=2, enq=2, sendbad=1, fwd=1, **{'raise': 1}))
            g.add(rng.choice([0.0, 0.5, 2.0]), 'start', a=0, s=i)
        if rng.below(3) == 0:
            cfg['sessions'][0]['settings']['HANDLE_OUTGOING_PACKETS'] = True
            cfg['sessions'][0]['subs'] += g.random_subs(g.out_names, 2, dict(none=0.3, **{'yield': 1, 'raise': 1}))
        g.app_traffic(cfg, rng.randint(8, 30), g.out_names)
        g.scale(cfg)
        g.bad_traffic(cfg, rng.below(6))
        g.peer_traffic(cfg, rng.randint(5, 30), inn)
        g.acks(cfg, rng.below(6))
        g.junk(cfg, rng.choice([0, 0, 3, 25]), inn)
        g.net_events(cfg, rng.below(3))
        return g.finish(cfg, g.t_end + 8, g.t_end)


@profile('C02')
class C02(Profile):
    probes = ('reliable_sent',)
    def gen(self, seed, pid='C02'):
        g = Gen(seed, pid)
        rng = g.rng
        if rng.below(2):
            cfg = g.config(g.many(1, 4), 1, 'bare')
            for p in cfg['peers']:
                p['cfg']['ack'] = rng.choice([0.0, 0.3, 0.7, 1.0])
            g.out_names = g.pool(HOT_OUT, 6)
            inn = g.pool(HOT_IN, 5)
            cfg['sessions'][0]['subs'] = g.random_subs(inn, rng.below(4))
            bare_ops(g, cfg, rng.randint(20, 60), g.out_names, conc=True)
            g.peer_traffic(cfg, rng.below(15), inn)
            g.acks(cfg, rng.randint(2, 14))
            g.bad_traffic(cfg, rng.below(4), actors=1, ops=('sendbad',))
            g.net_events(cfg, rng.below(3), ('cut', 'senderr', 'presend'))
            return g.finish(cfg, g.t_end + 10, g.t_end)
        cfg = g.config(g.many(1, 4), rng.choice([1, 1, 2]))
        for p in cfg['peers']:
            p['cfg']['ack'] = rng.choice([0.0, 0.3, 0.7, 1.0])
        g.out_names = g.pool(HOT_OUT, 6)
        inn = g.pool(HOT_IN, 5) + ['PacketAck']
        for i, sc in enumerate(cfg['sessions']):
            sc['subs'] = g.random_subs(inn, rng.below(6), dict(BEHS, send=2, enq=1, fwd=2, **{'raise': 1}))
            g.add(0.0, 'start', a=0, s=i)
        g.app_traffic(cfg, rng.randint(8, 30), g.out_names, ('send', 'send', 'enq'), small=rng.below(4) and 1)
        g.scale(cfg)
        g.peer_traffic(cfg, rng.randint(5, 25), inn[:-1])
        g.acks(cfg, rng.randint(2, 14))
        g.bad_traffic(cfg, rng.below(4))
        g.junk(cfg, rng.choice([0, 1, 3, 3, 25]), inn[:-1])
        g.net_events(cfg, rng.below(3))
        if len(cfg['sessions']) == 1 and rng.below(8) == 0:
            g.silence(cfg)
        return g.finish(cfg, g.t_end + 8, g.t_end)


@profile('C03')
class C03(C02):
    probes = ('acked',)
    def gen(self, seed):
        return C02.gen(self, seed, 'C03')


@profile('C04')
class C04(Profile):
    probes = ('reliable_received',)
    def gen(self, seed):
        g = Gen(seed, 'C04')
        rng = g.rng
        bare = rng.below(3) == 0
        cfg = g.config(g.many(1, 4), 1 if bare or rng.below(3) else 2, bare and 'bare' or 'manager')
        g.out_names = g.pool(HOT_OUT, 5)
        inn = g.pool(HOT_IN, 8)
        both = inn + rng.sample(P.banned, 2)
        for i, sc in enumerate(cfg['sessions']):
            sc['subs'] = g.random_subs(both, rng.below(7), bare and None or dict(BEHS, send=1, fwd=1, **{'raise': 2}))
            if not bare:
                g.add(rng.choice([0.0, 3.0]), 'start', a=0, s=i)
        g.peer_traffic(cfg, rng.randint(10, 60), both, rel=0.7)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            # a crowd of reliable datagrams: many acks at once (the batch limits)
            g.add(g.when(), 'pburst', s=0, p=rng.choice(cfg['peers'])['name'], n=rng.choice([20, 254, 255, 256, 300, 530]) if bare else rng.choice([5, 20, 60]),
                  name='AlertMessage', cs=g.cs())
        if bare:
            bare_ops(g, cfg, rng.randint(6, 25), g.out_names, conc=True)
        else:
            g.app_traffic(cfg, rng.below(15), g.out_names)
            g.scale(cfg)
        g.junk(cfg, rng.choice([0, 1, 3, 5, 25]), inn)
        g.net_events(cfg, rng.below(4), ('cut', 'senderr', 'prestart', 'presend', 'presend'))
        if not bare and len(cfg['sessions']) == 1 and rng.below(8) == 0:
            g.silence(cfg)
        return g.finish(cfg, g.t_end + 10, g.t_end)


@profile('C05')
class C05(Profile):
    probes = ('sent', 'delivered_udp')
    accept = ('C05',)

    def gen(self, seed):
        g = Gen(seed, 'C05')
        rng = g.rng
        custom = rng.below(5) == 0
        cfg = g.config(rng.choice([1, 2]), 1, rng.choice(['manager', 'manager', 'bare']))
        bare = cfg['sessions'][0]['kind'] == 'bare'
        if custom:
            cfg['template'] = custom_template(rng)
            g.codec = W.codec_of(cfg['template'])
            g.names_all = sorted([n for n in g.codec.names if P.flavors.get(n, 'template') == 'template'])
        # sweep: every run takes the next messages of the template
        names = [n for n in g.names_all if n != 'PacketAck']
        k = len(names)
        mine = [names[(seed * 7 + i) % k] for i in range(7)] + [names[(seed * 5 + 3 * i) % k] for i in range(5)]
        g.out_names = mine + rng.sample(names, min(k, 4))
        inn = mine + rng.sample(names, min(k, 4))
        sc = cfg['sessions'][0]
        sc['subs'] = [g.sub(n) for n in sorted(set(inn)) if rng.below(8)]
        if rng.below(2):
            sc['subs'] += g.random_subs(inn, rng.below(6), dict(none=0.1, fwd=1))
        if not bare:
            g.add(0.0, 'start', a=0)
        g.peer_traffic(cfg, rng.randint(15, 40), inn, small=False)
        if bare:
            bare_ops(g, cfg, rng.randint(15, 40), g.out_names, conc=True)
        else:
            g.app_traffic(cfg, rng.randint(15, 30), g.out_names, small=0)
            for i in range(rng.below(4)):
                # the same message object sent several times
                op = g.out_op(g.out_names, 'enq')
                for _ in range(rng.randint(2, 4)):
                    g.add(g.when(), dict(op, op=rng.choice(['enq', 'send']), obj=i, rel=rng.below(2)), a=rng.below(3))
        for op in g.ops:
            if op['op'] in ('enq', 'send') and rng.below(4) == 0:
                op['small'] = 0
        g.acks(cfg, rng.below(5))
        return g.finish(cfg, g.t_end + 8, g.t_end)


def custom_template(rng):
    """a small template: the messages the protocol itself needs, some of the
    embedded ones, and newly invented ones"""
    blocks = template_blocks()
    need = ['PacketAck', 'StartPingCheck', 'CompletePingCheck', 'UseCircuitCode', 'ChatFromViewer', 'AlertMessage', 'ChatFromSimulator']
    names = need + rng.sample(sorted([n for n in blocks if n not in need and P.flavors.get(n, 'template') == 'template']), 12)
    out = ['version 2.0']
    for n in names:
        out.append(blocks[n])
    used = {}
    types = ['U8', 'U16', 'U32', 'U64', 'S8', 'S16', 'S32', 'F32', 'F64', 'LLUUID', 'BOOL', 'LLVector3', 'LLVector3d', 'LLVector4',
             'LLQuaternion', 'IPADDR', 'IPPORT', 'S64', 'Variable 1', 'Variable 2', 'Variable 4', 'Fixed 1', 'Fixed 5', 'Fixed 32', 'Fixed 33', 'Fixed 64', 'Fixed 300']
    for i in range(rng.randint(2, 6)):
        freq, num = rng.choice([('Low', 40000 + i), ('Low', 256 * 7 + i), ('Medium', 200 + i), ('High', 200 + i), ('Fixed', '0xFFFFFF%02X' % (0xA0 + i))])
        lines = ['{', '\tNewMessage%d %s %s %s %s' % (i, freq, num, rng.choice(['Trusted', 'NotTrusted']), rng.choice(['Zerocoded', 'Unencoded']))]
        for b in range(rng.randint(1, 4)):
            kind = rng.choice(['Single', 'Variable', 'Multiple %d' % rng.randint(1, 5)])
            lines.append('\t{')
            lines.append('\t\tBlock%d\t%s' % (b, kind))
            for v in range(rng.randint(1, 6)):
                lines.append('\t\t{\tField%d\t%s\t}' % (v, rng.choice(types)))
            lines.append('\t}')
        lines.append('}')
        out.append('\n'.join(lines))
    return '\n\n'.join(out) + '\n'


_blocks = {}


def template_blocks():
    """message name -> its text in the embedded template"""
    if _blocks:
        return _blocks
    depth, cur = 0, []
    for line in P.template_text.replace('\r', '').split('\n'):
        text = line.split('//')[0].rstrip()
        if not text.strip() or text.startswith('version'):
            continue
        cur.append(text)
        depth += text.count('{') - text.count('}')
        if depth == 0 and cur:
            body = '\n'.join(cur)
            name = body.replace('{', ' ').split()[0]
            _blocks[name] = body
            cur = []
    return _blocks


@profile('C06')
class C06(Profile):
    probes = ('fault.mangled', 'fault.corrupt', 'fault.recv_error')
    accept = ('C06', 'C04', 'C05', 'C08')

    def gen(self, seed):
        g = Gen(seed, 'C06')
        rng = g.rng
        cfg = g.config(rng.randint(1, 3), 1)
        if rng.below(2):
            cfg['net']['corrupt'] = rng.choice([0.05, 0.2, 0.5])
        names = [n for n in g.names_all if n != 'PacketAck']
        inn = g.pool(HOT_IN, 4) + [names[(seed * 3 + i) % len(names)] for i in range(4)]
        g.out_names = g.pool(HOT_OUT, 5)
        cfg['sessions'][0]['subs'] = [g.sub(n) for n in sorted(set(inn))] + g.random_subs(inn, rng.below(4), dict(BEHS, fwd=3, **{'raise': 1}))
        if rng.below(5) == 0:
            cfg['sessions'][0]['subs'] += [g.sub(n) for n in rng.sample(names, 40)]
        g.add(0.0, 'start', a=0)
        g.junk(cfg, rng.randint(10, 50), inn + ['PacketAck'])
        g.peer_traffic(cfg, rng.randint(8, 25), inn)
        g.app_traffic(cfg, rng.randint(3, 12), g.out_names)
        g.net_events(cfg, rng.below(3), ('rxerr', 'rxerr', 'presend'))
        return g.finish(cfg, g.t_end + 8, g.t_end)


@profile('C07')
class C07(Profile):
    probes = ('delivered_udp', 'delivered_outgoing', 'eq_dispatched')
    def gen(self, seed):
        g = Gen(seed, 'C07')
        rng = g.rng
        cfg = g.config(rng.choice([1, 2]), rng.choice([1, 1, 2]))
        g.out_names = g.pool(HOT_OUT, 4)
        eq = rng.below(2)
        inn = rng.sample(g.pool(HOT_IN, 5), rng.randint(2, 4))
        if eq:
            inn += ['ParcelProperties', 'UnheardOfEvent'][:rng.randint(1, 2)]
        if rng.below(2):
            inn.append('PacketAck')
        for i, sc in enumerate(cfg['sessions']):
            sc['subs'] = g.random_subs(inn, rng.randint(2, 12), {'none': 0.3, 'yield': 3, 'sub': 2, 'unsub': 4, 'raise': 2, 'enq': 1, 'send': 1}, wild=True)
            g.add(0.0, 'start', a=0, s=i)
            if rng.below(3) == 0:
                sc['settings']['HANDLE_OUTGOING_PACKETS'] = True
                sc['subs'] += g.random_subs(g.out_names, 3, {'none': 0.4, 'yield': 1, 'raise': 1, 'unsub': 1}, wild=True)
                sc['subs'] = [x for x in sc['subs'] if not x.get('twin')]
            if eq:
                sc['eq'] = g.eq()
                g.events(rng.randint(4, 12), s=i, names=[n for n in inn if n != 'PacketAck'] + ['ParcelProperties'])
        g.peer_traffic(cfg, rng.randint(10, 40), [n for n in inn if n in P.allowed and n != 'PacketAck'])
        g.sub_changes(cfg, rng.randint(0, 14), inn)
        g.app_traffic(cfg, rng.randint(2, 12), g.out_names)
        g.acks(cfg, rng.below(4))
        return g.finish(cfg, g.t_end + 12, g.t_end)


@profile('C08')
class C08(Profile):
    probes = ('queue_sent',)
    def gen(self, seed):
        g = Gen(seed, 'C08')
        rng = g.rng
        cfg = g.config(rng.choice([1, 1, 2]), rng.choice([1, 1, 2]))
        g.out_names = g.pool(HOT_OUT, 6, tokened=True)
        inn = g.pool(HOT_IN, 4)
        for i, sc in enumerate(cfg['sessions']):
            sc['subs'] = g.random_subs(inn, rng.below(6), {'none': 0.3, 'yield': 1, 'enq': 4, 'send': 1, 'raise': 1, 'fwd': 2})
            g.add(rng.choice([0.0, 0.0, 4.0]), 'start', a=0, s=i)
            if rng.below(3) == 0:
                sc['settings']['HANDLE_OUTGOING_PACKETS'] = True
                sc['subs'] += g.random_subs(g.out_names, 3, {'none': 0.4, 'yield': 1, 'raise': 1, 'enq': 2})
        g.app_traffic(cfg, rng.randint(10, 40), g.out_names, ('enq', 'enq', 'enq', 'send'))
        g.scale(cfg, how=('enq', 'send'))
        for i in range(rng.below(3)):
            op, t = g.out_op(g.out_names, 'enq'), None
            for _ in range(rng.randint(2, 3)):
                t = rng.below(2) and t or g.when()
                g.add(t, dict(op, obj=i, rel=rng.below(2)), a=rng.below(3), s=rng.below(len(cfg['sessions'])))
        g.bad_traffic(cfg, rng.below(8), ops=('enqbad', 'enqbad', 'sendbad'))
        g.peer_traffic(cfg, rng.randint(4, 20), inn)
        g.net_events(cfg, rng.below(3), ('cut', 'senderr', 'rxerr'))
        return g.finish(cfg, g.t_end + 8, g.t_end)


@profile('C09')
class C09(Profile):
    probes = ('stops',)
    def gen(self, seed):
        g = Gen(seed, 'C09')
        rng = g.rng
        g.t_end = 15.0
        n = rng.choice([1, 1, 2])
        cfg = g.config(rng.choice([n, n, 3]) if n < 3 else n, n)
        g.out_names = g.pool(HOT_OUT, 5)
        inn = g.pool(HOT_IN, 4) + ['ParcelProperties', 'UnheardOfEvent']
        worst = 0
        for i, sc in enumerate(cfg['sessions']):
            interval = rng.choice([1, 1, 0.25, 3])
            sc['settings']['REGION_EVENT_QUEUE_POLL_INTERVAL'] = interval
            stop_t = rng.choice([0.0, round(rng.uniform(0, 0.05), 4), round(rng.uniform(0, 15), 4), round(rng.uniform(0, 15), 4)])
            behs = {'none': 0.5, 'yield': 2, 'raise': 1, 'enq': 1, 'send': 1}
            if rng.below(3) == 0:
                behs['stop'] = 4
                stop_t = 15.0
            sc['subs'] = g.random_subs(inn, rng.randint(2, 6), behs)
            if rng.below(4):
                sc['eq'] = eq = g.eq()
                eq['interval'] = interval
                worst = max(worst, eq['hold'])
                g.events(rng.randint(2, 8), s=i, lo=0.0)
            if rng.below(8) == 0:
                sc['settings']['ENABLE_REGION_EVENT_QUEUE'] = False
            start_t = rng.choice([0.0, 0.0, 1.0])
            if rng.below(10):
                g.add(start_t, 'start', a=0, s=i)
            ts = start_t + stop_t
            for k in range(rng.choice([1, 1, 1, 2, 3])):
                g.add(ts, 'stop', a=rng.choice([0, 1]), s=i)
                ts += rng.choice([0.0, 0.5, 3.0, 12.0])
            # the peer goes on talking
            sc['tick'] = rng.choice([0.5, 1.0, 2.5])
        cfg['http'] = g.http_faults()
        g.app_traffic(cfg, rng.randint(2, 14), g.out_names)
        g.peer_traffic(cfg, rng.randint(4, 20), inn[:4])
        g.net_events(cfg, rng.below(3))
        cfg['stop_grace'] = worst + 60.0
        for i, sc in enumerate(cfg['sessions']):
            # later activity must have no effect
            for _ in range(3):
                t = g.when(20, 60)
                g.add(t, g.out_op(g.out_names, 'enq'), a=2, s=i)
            if sc.get('eq'):
                g.events(2, s=i, lo=20, hi=60)
        return g.finish(cfg, 15 + 12 + worst + 80.0, 30.0)


def eq_plan(g, pid, stops=False):
    rng = g.rng
    n = rng.choice([1, 1, 1, 2])
    cfg = g.config(n, n)
    inn = g.pool(HOT_IN, 2)
    names = [x for x in ['EstablishAgentCommunication', 'ChatterBoxInvitation', 'ParcelProperties', 'TeleportFinish', 'EnableSimulator',
                         'CrossedRegion', 'OpenCircuit', 'ChatFromSimulator', 'UnheardOfEvent', 'AgentGroupDataUpdate', 'ScriptRunningReply', 'KillObject', 'OnlineNotification', 'CoarseLocationUpdate']]
    g.out_names = g.pool(HOT_OUT, 3)
    nev, worst = 0, 0
    for i, sc in enumerate(cfg['sessions']):
        interval = rng.choice([1, 1, 0.25, 3])
        sc['settings']['REGION_EVENT_QUEUE_POLL_INTERVAL'] = interval
        sc['eq'] = eq = g.eq()
        eq['interval'] = interval
        if rng.below(5) == 0:
            eq['capname'] = 'event_queue'
        sc['subs'] = [g.sub(x) for x in names] + g.random_subs(names, rng.below(6), dict({'none': 0.4, 'yield': 2, 'raise': 2, 'enq': 1, 'sub': 1, 'unsub': 1}, **(stops and {'stop': 1.5} or {})))
        sc['subs'] += g.random_subs(inn, 2, {'none': 0.5, 'yield': 1})
        sc['tick'] = rng.choice([1.0, 3.0])
        g.add(rng.choice([0.0, 0.0, 2.0]), 'start', a=0, s=i)
        k = len(g.ops)
        g.events(rng.randint(3, 15), s=i, lo=0.0, hi=25.0, names=names)
        nev = max(nev, (len(g.ops) - k) / eq['batch'] + 2)
        worst = max(worst, eq['hold'])
        if rng.below(6) == 0:
            g.add(g.when(1, 40), 'eqdown', s=i, d=rng.choice([2.0, 10.0, 30.0]))
    cfg['http'] = g.http_faults()
    g.peer_traffic(cfg, rng.below(10), inn)
    g.app_traffic(cfg, rng.below(5), g.out_names)
    return cfg, nev, worst


@profile('C10')
class C10(Profile):
    probes = ('eq_dispatched',)
    real = 'MessageManager, EventQueueClient, Capability, StdLibClient (urllib2/httplib), LLSD helpers, MessageHandler/Event, TemplateDictionary'

    def gen(self, seed):
        g = Gen(seed, 'C10')
        stops = g.rng.below(3) == 0
        cfg, nev, worst = eq_plan(g, 'C10', stops)
        quiet = 35.0
        if not stops:
            cfg['eq_complete'] = 1
        else:
            # what has been received is dispatched, stopped or not
            for i in range(len(cfg['sessions'])):
                g.add(g.when(2, 35), 'stop', a=1, s=i)
            cfg['stop_grace'] = worst + 60.0
            return g.finish(cfg, 60 + worst + 70.0, quiet)
        # one request may be stalled, then every batch takes one poll
        until = quiet + worst + 40 + nev * 7.0
        return g.finish(cfg, until, quiet)


@profile('C11')
class C11(Profile):
    probes = ('eq_polls',)
    real = C10.real

    def gen(self, seed):
        g = Gen(seed, 'C11')
        rng = g.rng
        stops = rng.below(2) == 1
        cfg, nev, worst = eq_plan(g, 'C11', stops)
        if stops:
            for i in range(len(cfg['sessions'])):
                g.add(g.when(0, 50), 'stop', a=1, s=i)
        if rng.below(4) == 0:
            cfg['net']['corrupt'] = 0.1
        cfg['stop_grace'] = worst + 60.0
        quiet = rng.choice([35.0, 60.0, 200.0])
        return g.finish(cfg, 60 + worst + 70.0, quiet)


@profile('C13')
class C13(Profile):
    probes = ('http_only',)
    accept = ('C13',)

    def gen(self, seed):
        g = Gen(seed, 'C13')
        rng = g.rng
        cfg = g.config(rng.choice([1, 2]), 1, rng.choice(['manager', 'manager', 'bare']))
        bare = cfg['sessions'][0]['kind'] == 'bare'
        if rng.below(3) == 0:
            cfg['xml'] = custom_xml(rng)
            fl = W.flavors_of(cfg['xml'])
            g.flavors = fl
            g.names_all = sorted([n for n in P.codec.names if fl.get(n, 'template') == 'template'])
            g.names_banned = sorted([n for n in P.codec.names if fl.get(n, 'template') != 'template'])
        ban = list(g.names_banned)
        rng.shuffle(ban)
        ban = ban[:6]
        # messages which only the message.xml in force allows or forbids
        flip = [n for n in ('ChatFromViewer', 'ParcelProperties', 'TeleportFinish', 'CrossedRegion', 'EnableSimulator') if n in g.names_all]
        g.out_names = g.pool([x for x in HOT_OUT if x in g.names_all], 4) + flip[:2]
        inn = g.pool([x for x in HOT_IN if x in g.names_all], 4) + flip[-2:]
        sc = cfg['sessions'][0]
        sc['subs'] = [g.sub(n) for n in ban + inn if rng.below(5)]
        if not bare:
            g.add(0.0, 'start', a=0)
        g.peer_traffic(cfg, rng.randint(10, 30), ban + inn, rel=0.5)
        for _ in range(rng.randint(4, 15)):
            op = dict(op=rng.choice(bare and ['sendbad'] or ['sendbad', 'enqbad']), name=rng.choice(ban), cs=rng.bits(16), how='banned', x=0, y=0, rel=rng.below(2), retries=rng.below(3))
            if op['op'] == 'sendbad' and rng.below(2):
                op['p'] = rng.choice(cfg['peers'])['name']
            g.add(g.when(), op, a=0 if bare else rng.below(3))
        if bare:
            bare_ops(g, cfg, rng.randint(15, 30), g.out_names)
        else:
            g.app_traffic(cfg, rng.randint(5, 15), g.out_names)
        g.acks(cfg, rng.below(5))
        return g.finish(cfg, g.t_end + 8, g.t_end)


def custom_xml(rng):
    from llbase import llsd
    d = llsd.parse(P.xml_text)
    msgs = d['messages']
    names = sorted(msgs)
    for n in rng.sample(names, 20):
        msgs[n]['flavor'] = msgs[n].get('flavor') == 'llsd' and 'template' or 'llsd'
    for n in rng.sample([x for x in P.allowed if x not in msgs and x not in ('PacketAck', 'StartPingCheck', 'AlertMessage')], 10):
        msgs[n] = {'flavor': 'llsd', 'trusted-sender': False}
    for n in ('PacketAck', 'StartPingCheck', 'AlertMessage'):
        if n in msgs:
            msgs[n]['flavor'] = 'template'
    out = llsd.format_xml(d)
    return out


@profile('C17')
class C17(Profile):
    probes = ('fault.send_error', 'fault.refused_message')
    accept = ('C17', 'C01', 'C02', 'C04', 'C08')

    def gen(self, seed):
        g = Gen(seed, 'C17')
        rng = g.rng
        cfg = g.config(rng.randint(1, 3), 1, rng.choice(['manager', 'manager', 'bare']))
        bare = cfg['sessions'][0]['kind'] == 'bare'
        cfg['net']['senderr'] = rng.choice([0.0, 0.05, 0.2, 0.5])
        if rng.below(6) == 0:
            cfg['template'] = custom_template(rng)
            g.codec = W.codec_of(cfg['template'])
            g.names_all = sorted([n for n in g.codec.names if P.flavors.get(n, 'template') == 'template'])
            g.names_banned = []
        g.out_names = g.pool(HOT_OUT, 6)
        inn = g.pool(HOT_IN, 4)
        if 'template' in cfg and rng.below(2):
            g.out_names += inn
        sc = cfg['sessions'][0]
        sc['subs'] = g.random_subs(inn, rng.below(5), bare and None or {'none': 0.4, 'yield': 1, 'sendbad': 3, 'send': 1, 'raise': 1, 'fwd': 3})
        outgoing = rng.below(2)
        if 'template' in cfg:
            sc['subs'] += g.random_subs(inn, 4, dict(none=0.0, fwd=1))
            outgoing = rng.below(5) == 0
        if not bare:
            g.add(0.0, 'start', a=0)
            if outgoing:
                sc['settings']['HANDLE_OUTGOING_PACKETS'] = True
                sc['subs'] += g.random_subs(g.out_names, 4, {'none': 0.2, 'yield': 1, 'raise': 4})
            g.app_traffic(cfg, rng.randint(10, 30), g.out_names)
            g.scale(cfg)
            g.bad_traffic(cfg, rng.randint(4, 20))
        else:
            bare_ops(g, cfg, rng.randint(15, 40), g.out_names, conc=True)
            g.bad_traffic(cfg, rng.randint(4, 20), actors=1, ops=('sendbad', 'sendnohost'))
        g.peer_traffic(cfg, rng.randint(5, 25), inn)
        g.net_events(cfg, rng.randint(0, 6), ('senderr', 'senderr', 'cut', 'rxerr'))
        return g.finish(cfg, g.t_end + 8, g.t_end)


@profile('C12')
class C12(Profile):
    probes = ('cap_calls',)
    real = 'Capability, SeedCapability, StdLibClient (urllib2/httplib), LLSD serializers and deserializers, exceptions'

    def gen(self, seed):
        g = Gen(seed, 'C12')
        rng = g.rng
        cfg = dict(peers=[], sessions=[], net={}, http=g.http_faults(), step=rng.choice([0.0002, 0.003]), sched=rng.choice([0.0, 0.3, 0.6]))
        g.cap_traffic(cfg, rng.randint(8, 40))
        if rng.below(3) == 0:
            cfg['cap_settings'] = dict(LOG_VERBOSE=True, ENABLE_CAPS_LOGGING=bool(rng.below(2)), ENABLE_CAPS_LLSD_LOGGING=True)
        return g.finish(cfg, 200.0, rng.choice([20.0, 200.0]))


def first_difference(a, b, what=''):
    """where two observations differ, as text (or None)"""
    if a == b:
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_difference(a.get(k), b.get(k), '%s/%s' % (what, k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        for i in range(max(len(a), len(b))):
            x = i < len(a) and repr(a[i])[:240] or 'nothing'
            y = i < len(b) and repr(b[i])[:240] or 'nothing'
            if x != y:
                return '%s, number %d: %s / %s' % (what, i, x, y)
    return '%s: %s / %s' % (what, repr(a)[:240], repr(b)[:240])


def with_sessions(plan, fn, ops=None):
    cfg = dict(plan['cfg'], sessions=[fn(i, copy.deepcopy(sc)) for i, sc in enumerate(plan['cfg']['sessions'])])
    return dict(cfg=cfg, ops=ops if ops is not None else plan['ops'])


@profile('C14')
class C14(Profile):
    probes = ('sent', 'delivered_udp')
    """the same history with different subscriptions"""

    def gen(self, seed):
        g = Gen(seed, 'C14')
        rng = g.rng
        bare = rng.below(3) == 0
        cfg = g.config(rng.randint(1, 3), 1, bare and 'bare' or 'manager')
        g.out_names = g.pool(HOT_OUT, 5)
        inn = g.pool(HOT_IN, 7)
        both = inn + rng.sample(P.banned, 2) + ['PacketAck']
        sc = cfg['sessions'][0]
        sc['subs'] = g.random_subs(both, rng.below(7))
        cfg['variants'] = [rng.bits(30) for _ in range(2)]
        if not bare:
            g.add(0.0, 'start', a=0)
            g.app_traffic(cfg, rng.randint(5, 25), g.out_names)
            g.scale(cfg)
            g.sub_changes(cfg, rng.below(8), inn)
        else:
            bare_ops(g, cfg, rng.randint(10, 40), g.out_names)
        g.bad_traffic(cfg, rng.below(4), actors=1 if bare else 3, ops=('sendbad',))
        g.peer_traffic(cfg, rng.randint(10, 40), both[:-1], rel=0.6)
        g.acks(cfg, rng.below(8))
        g.net_events(cfg, rng.below(3), ('cut', 'senderr', 'presend', 'prestart'))
        return g.finish(cfg, g.t_end + 8, g.t_end)

    def variant(self, plan, k):
        """k 0: nothing subscribed, parsing deferred; 1: everything, not
        deferred; else random ones added to those given"""
        noop = [o['op'] in ('sub', 'unsub') and dict(o, op='noop') or o for o in plan['ops']]

        def change(i, sc):
            st = sc.setdefault('settings', {})
            if k == 0:
                sc['subs'] = []
                st.pop('ENABLE_DEFERRED_PACKET_PARSING', None)
            elif k == 1:
                st['ENABLE_DEFERRED_PACKET_PARSING'] = False
                sc['subs'] = sc['subs'] + [dict(sid=10000 + j, name=n) for j, n in enumerate(P.codec.names)]
            else:
                rng = RNG(k)
                if rng.below(2):
                    st['ENABLE_DEFERRED_PACKET_PARSING'] = bool(rng.below(2))
                if rng.below(3) == 0:
                    # nothing at all is handed to the subscribers
                    st['HANDLE_PACKETS'] = False
                used = sorted(set([o['name'] for o in plan['ops'] if o['op'] in ('psend', 'pburst')])) + ['PacketAck', 'StartPingCheck']
                sc['subs'] = [x for x in sc['subs'] if rng.below(2)] + [dict(sid=20000 + j, name=n) for j, n in enumerate(used) if rng.below(2)]
            return sc
        p = with_sessions(plan, change, noop)
        if k > 1 and k & 1:
            rng = RNG(k + 1)
            p['cfg']['toggles'] = [(rng.uniform(0, 25), 0, dict(ENABLE_DEFERRED_PACKET_PARSING=bool(rng.below(2)))) for _ in range(rng.randint(1, 8))]
        return p

    def execute(self, plan, choices):
        base = W.World(plan, choices()).run()
        worlds = [base]
        if base.viol:
            return worlds, base.viol[0]
        ref = base.observe()[0]
        # subscriptions which change during the run are not comparable
        touched = set([o['sid'] for o in plan['ops'] if o['op'] == 'unsub'])
        dyn = set([o['spec']['sid'] for o in plan['ops'] if o['op'] == 'sub'])
        for k in [0, 1] + plan['cfg'].get('variants', []):
            p = self.variant(plan, k)
            w = W.World(p, choices()).run()
            worlds.append(w)
            what = {0: 'nothing', 1: 'everything'}.get(k, 'something else')
            if w.viol:
                if 'C14' in w.viol[0].tags:
                    return worlds, w.viol[0]
                return self.differs(worlds, 'subs-violation', 'with %s subscribed: %s' % (what, w.viol[0].msg))
            obs = w.observe()[0]
            d = first_difference(ref['tx'], obs['tx'], 'datagrams')
            if d:
                return self.differs(worlds, 'subs-tx', 'with %s subscribed the client sends something else: %s' % (what, d))
            for sub in p['cfg']['sessions'][0]['subs']:
                sid = sub['sid']
                if sid >= 10000 or sid in touched or sid in dyn:
                    continue
                if p['cfg']['sessions'][0]['settings'].get('HANDLE_PACKETS') is False:
                    break
                d = first_difference(ref['dl'].get(sid, []), obs['dl'].get(sid, []), 'deliveries of %s' % sub['name'])
                if d:
                    return self.differs(worlds, 'subs-dl', 'with %s subscribed: %s' % (what, d))
        return worlds, None


@profile('C15')
class C15(Profile):
    probes = ('sent', 'delivered_udp', 'eq_dispatched')
    """the same history with and without the others"""

    def gen(self, seed):
        g = Gen(seed, 'C15')
        rng = g.rng
        if rng.below(2):
            cfg = g.config(g.many(2, 4), 1, 'bare', step=0.0, sched=0.0)
            cfg['mode'] = 'peers'
            g.out_names = g.pool(HOT_OUT, 6)
            inn = g.pool(HOT_IN, 6)
            cfg['sessions'][0]['subs'] = g.random_subs(inn + rng.sample(P.banned, 1), rng.below(6))
            bare_ops(g, cfg, rng.randint(20, 60), g.out_names)
            for o in g.ops:
                if o['op'] == 'poll':
                    o['n'] = 5000
            g.peer_traffic(cfg, rng.randint(15, 50), inn + rng.sample(P.banned, 1))
            g.acks(cfg, rng.randint(2, 12))
            g.junk(cfg, rng.below(6), inn)
            g.bad_traffic(cfg, rng.below(4), actors=1, ops=('sendbad',))
            for o in g.ops:
                if o['op'] == 'sendbad' and 'p' not in o:
                    o['p'] = cfg['peers'][0]['name']
            g.ops = [o for o in g.ops if o['op'] != 'rxerr']
            g.net_events(cfg, rng.below(5), ('cut', 'senderr', 'presend', 'prestart'))
            return g.finish(cfg, g.t_end + 10, g.t_end)
        n = rng.choice([2, 2, 3])
        cfg = g.config(n, n, step=0.0, sched=0.0)
        cfg['mode'] = 'sessions'
        g.out_names = g.pool(HOT_OUT, 6)
        inn = g.pool(HOT_IN, 5)
        names = inn + ['ParcelProperties', 'UnheardOfEvent']
        for i, sc in enumerate(cfg['sessions']):
            sc['own_handler'] = rng.below(4)
            sc['subs'] = g.random_subs(names, rng.randint(1, 7), {'none': 0.5, 'yield': 1, 'raise': 1, 'unsub': 1, 'sub': 1, 'stop': 0.3})
            for x in sc['subs']:
                for b in x.get('beh') or []:
                    if b['k'] == 'unsub':
                        b['sid'] = rng.choice(sc['subs'])['sid']
            g.add(rng.choice([0.0, 0.0, 2.0]), 'start', a='s%d' % i, s=i)
            if rng.below(3):
                sc['eq'] = g.eq()
                g.events(rng.randint(2, 8), s=i, names=names)
            if rng.below(4) == 0:
                sc['settings']['REGION_EVENT_QUEUE_POLL_INTERVAL'] = interval = rng.choice([0.25, 3])
                if sc.get('eq'):
                    sc['eq']['interval'] = interval
            if rng.below(4) == 0:
                g.add(g.when(5), 'stop', a='s%d' % i, s=i)
        if rng.below(3) == 0:
            cfg['one_settings'] = 1
            for sc in cfg['sessions']:
                if rng.below(4):
                    sc['settings'] = dict(cfg['sessions'][0]['settings'])
                    if sc.get('eq'):
                        sc['eq']['interval'] = sc['settings'].get('REGION_EVENT_QUEUE_POLL_INTERVAL', 1)
        cfg['http'] = g.http_faults()
        g.app_traffic(cfg, rng.randint(8, 30), g.out_names)
        g.bad_traffic(cfg, rng.below(5), ops=('enqbad', 'sendbad'))
        g.peer_traffic(cfg, rng.randint(10, 40), inn)
        g.acks(cfg, rng.below(10))
        g.junk(cfg, rng.below(5), inn)
        g.net_events(cfg, rng.below(4))
        for o in g.ops:
            i = o.get('s', 0)
            o['s'] = i
            if 'p' in o:
                o['p'] = 'p%d' % i
            if 'a' in o and not str(o['a']).startswith('s'):
                o['a'] = 's%da%s' % (i, o['a'])
        return g.finish(cfg, g.t_end + 12, g.t_end)

    def execute(self, plan, choices):
        base = W.World(plan, choices()).run()
        worlds = [base]
        if base.viol:
            return worlds, base.viol[0]
        if plan['cfg']['mode'] == 'peers':
            return self.peers(plan, choices, base, worlds)
        ref = base.observe(times=True)
        for i in range(len(plan['cfg']['sessions'])):
            def only(j, sc):
                if j != i:
                    sc['skip'] = 1
                return sc
            w = W.World(with_sessions(plan, only, [o for o in plan['ops'] if o['s'] == i]), choices()).run()
            worlds.append(w)
            if w.viol:
                return self.differs(worlds, 'alone-violation', 'session %d alone: %s' % (i, w.viol[0].msg))
            d = first_difference(ref[i], w.observe(times=True)[i], 'session %d' % i)
            if d:
                return self.differs(worlds, 'session-differs', 'beside others and alone: %s' % d)
        return worlds, None

    def peers(self, plan, choices, base, worlds):
        def seen(w, name):
            tx = [(round(e['t'], 6), e['data']) for e in w.net.tx if w.net.name(e['dst']) == name]
            dl = [(round(e['t'], 6), e['sid'], e['name'], W.K_digest(e['snap'])) for e in w.delivery_log if e.get('src') == name]
            return dict(tx=tx, dl=dl)
        peers = plan['cfg']['peers']
        if len(peers) > 8:
            # of a crowd, the first ones and the last ones
            peers = peers[:2] + peers[-2:]
        for p in peers:
            name = p['name']
            ops = [o for o in plan['ops'] if o.get('p', name) == name]
            w = W.World(dict(cfg=plan['cfg'], ops=ops), choices()).run()
            worlds.append(w)
            if w.viol:
                return self.differs(worlds, 'peer-violation', 'with %s alone: %s' % (name, w.viol[0].msg))
            d = first_difference(seen(base, name), seen(w, name), name)
            if d:
                return self.differs(worlds, 'peer-differs', 'with and without the other peers: %s' % d)
        return worlds, None


@profile('C16')
class C16(Profile):
    probes = ('waits', 'wait_stops')
    real = 'Wait (helpers)'

    def gen(self, seed):
        g = Gen(seed, 'C16')
        rng = g.rng
        step = rng.choice([0.01, 0.02, 0.05, 0.1])
        cfg = dict(peers=[], sessions=[], net={}, http={}, step=step, sched=rng.choice([0.0, 0.3, 0.8]), max_steps=40000)
        if rng.below(3) == 0:
            cfg = g.config(1, 1, step=step)
            g.out_names = g.pool(HOT_OUT, 3)
            inn = g.pool(HOT_IN, 3)
            cfg['sessions'][0]['subs'] = g.random_subs(inn, 2)
            g.add(0.0, 'start', a=0)
            g.peer_traffic(cfg, 10, inn)
            g.app_traffic(cfg, 5, g.out_names, actors=1)
        n = rng.randint(1, 8)
        stops = []
        if not cfg['sessions'] and rng.below(6) == 0:
            # long ones
            cfg['step'] = 0.5
            for i in range(rng.randint(1, 3)):
                d = rng.choice([30, 59, 60, 61, 100, 130, 600, 900, 3600, 3661])
                t = g.when(0.0, 6.0)
                g.add(t, 'wait', a='w%d' % i, id=i, d=d)
                if rng.below(3) == 0:
                    g.add(t + rng.uniform(0, d), 'waitstop', a='x%d' % i, id=i)
            return g.finish(cfg, 4000.0, 3900.0)
        for i in range(n):
            k = rng.randint(1, 3)
            t = g.when(0.0, 6.0)
            for j in range(k):
                wid = '%d.%d' % (i, j)
                d = rng.choice([0, 1, 1, 2, 3, 5, 8, 1.5, 2.9, '2', -1])
                g.add(t, 'wait', a='w%d' % i, id=wid, d=d)
                if rng.below(4) == 0:
                    g.ops[-1]['again'] = rng.randint(1, 2)
                if rng.below(3) == 0:
                    stops.append((wid, t + rng.uniform(0.0, max(0.1, float(d))) * rng.choice([1.0, 0.5, 1.2])))
                t += float(d) * rng.below(2) + rng.choice([0.0, 0.3])
        for wid, t in stops:
            g.add(t, 'waitstop', a='x%d' % rng.below(3), id=wid)
            if rng.below(4) == 0:
                g.add(t, 'waitstop', a='x%d' % rng.below(3), id=wid)
        for i in range(rng.below(4)):
            g.add(g.when(0.0, 5.0), 'busy', a='b%d' % i, d=rng.choice([1.0, 5.0, 15.0]), nap=rng.choice([0, 0, 0.05, 0.7]))
        return g.finish(cfg, 40.0, 30.0)


@profile('C18')
class C18(Profile):
    probes = ('sent', 'delivered_udp', 'cap_calls')
    """the same history with different logging settings"""

    def gen(self, seed):
        g = Gen(seed, 'C18')
        rng = g.rng
        n = rng.choice([1, 1, 2])
        kind = rng.choice(['manager', 'manager', 'manager', 'bare'])
        if kind == 'bare':
            n = 1
        cfg = g.config(rng.randint(n, 3), n, kind)
        g.out_names = g.pool(HOT_OUT, 6)
        inn = g.pool(HOT_IN, 5)
        names = inn + ['ParcelProperties', 'UnheardOfEvent', 'PacketAck']
        for i, sc in enumerate(cfg['sessions']):
            if kind == 'bare':
                sc['subs'] = g.random_subs(inn, rng.below(5))
                continue
            sc['subs'] = g.random_subs(names, rng.below(8), {'none': 0.5, 'yield': 1, 'raise': 1, 'enq': 1, 'send': 1, 'sendbad': 1})
            if rng.below(3) == 0:
                sc['settings']['HANDLE_OUTGOING_PACKETS'] = True
                sc['subs'] += g.random_subs(g.out_names, 2, {'none': 0.5, 'yield': 1, 'raise': 1})
            g.add(0.0, 'start', a=0, s=i)
            if rng.below(2):
                sc['eq'] = g.eq()
                if rng.below(4) == 0:
                    sc['eq']['capname'] = 'event_queue'
                g.events(rng.randint(2, 8), s=i, names=names[:-1])
                if rng.below(2):
                    g.add(g.when(5, 30), 'stop', a=0, s=i)
        cfg['http'] = g.http_faults()
        if kind == 'bare':
            bare_ops(g, cfg, rng.randint(10, 30), g.out_names)
            g.bad_traffic(cfg, rng.below(5), actors=1, ops=('sendbad', 'sendnohost'))
        else:
            g.app_traffic(cfg, rng.randint(5, 20), g.out_names)
            g.bad_traffic(cfg, rng.below(6))
        g.peer_traffic(cfg, rng.randint(5, 25), inn + rng.sample(P.banned, 1))
        g.acks(cfg, rng.below(5))
        g.junk(cfg, rng.below(8), inn)
        g.net_events(cfg, rng.below(4))
        if rng.below(2):
            g.cap_traffic(cfg, rng.randint(3, 12))
            for o in g.ops:
                if o['op'] == 'cap':
                    o['a'] = 'c%s' % o['a']
        cfg['variants'] = [rng.bits(30) for _ in range(2)]
        return g.finish(cfg, g.t_end + 14, g.t_end)

    SWITCHES = ('LOG_VERBOSE', 'ENABLE_BYTES_TO_HEX_LOGGING', 'ENABLE_CAPS_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING', 'ENABLE_EQ_LOGGING', 'ENABLE_UDP_LOGGING',
                'ENABLE_OBJECT_LOGGING', 'LOG_SKIPPED_PACKETS', 'ENABLE_HOST_LOGGING', 'LOG_COROUTINE_SPAWNS', 'PROXY_LOGGING', 'DISABLE_SPAMMERS',
                'ENABLE_LOGGING_IN_TESTS')

    def variant(self, plan, k):
        rng = RNG(k)
        ctor, switches = {}, {}
        mode = k < 2 and k or 2 + rng.below(2)
        if mode == 0:
            ctor = dict(quiet_logging=True)
        elif mode == 1:
            ctor = dict(spammy_logging=True)
        elif mode == 2:
            switches = dict((x, bool(rng.below(2))) for x in self.SWITCHES)
        else:
            ctor = rng.choice([dict(spammy_logging=True), dict(quiet_logging=True), dict(quiet_logging=True, spammy_logging=True), dict(log_tests=False)])
            switches = dict((x, bool(rng.below(2))) for x in self.SWITCHES if rng.below(4) == 0)

        def change(i, sc):
            sc['ctor'] = ctor
            sc['settings'] = dict(sc.get('settings', {}), **switches)
            return sc
        p = with_sessions(plan, change)
        if mode > 1 and rng.below(2):
            # which messages are too frequent to be logged
            spam = rng.sample(HOT_OUT, 4) + rng.sample(HOT_IN, 4) + ['PacketAck']
            p = with_sessions(p, lambda i, sc: dict(sc, settings=dict(sc['settings'], UDP_SPAMMERS=spam)))
        if mode > 1 and rng.below(2):
            # changed while the session runs
            p['cfg']['toggles'] = [(rng.uniform(0, 25), rng.below(len(p['cfg']['sessions'])), dict((x, bool(rng.below(2))) for x in self.SWITCHES if rng.below(3) == 0)) for _ in range(rng.randint(1, 6))]
        p['cfg']['cap_ctor'], p['cfg']['cap_settings'] = ctor, switches
        p['cfg']['log_handler'] = rng.below(2)
        return p, '%s %s' % (ctor, switches)

    def execute(self, plan, choices):
        base = W.World(plan, choices()).run()
        worlds = [base]
        if base.viol:
            return worlds, base.viol[0]
        ref = base.observe(times=True)
        for k in [0, 1] + plan['cfg'].get('variants', []):
            p, what = self.variant(plan, k)
            w = W.World(p, choices()).run()
            worlds.append(w)
            if w.viol:
                return self.differs(worlds, 'log-violation', 'with %s: %s' % (what, w.viol[0].msg))
            d = first_difference(ref, w.observe(times=True), '')
            if d:
                return self.differs(worlds, 'log-differs', 'with %s: %s' % (what, d))
        return worlds, None
