"""Seeded generation of plans: configurations, operations and fault rates."""
from core import RNG, mix
import http as H
import caps
from env import P

HOT_OUT = ['ChatFromViewer', 'AgentUpdate', 'UseCircuitCode', 'CompleteAgentMovement', 'ImprovedInstantMessage', 'RequestImage',
           'AgentThrottle', 'ObjectSelect', 'MoneyTransferRequest', 'TransferRequest']
HOT_IN = ['ChatFromSimulator', 'CoarseLocationUpdate', 'ImprovedTerseObjectUpdate', 'ObjectUpdate', 'KillObject', 'RegionHandshake',
          'AgentDataUpdate', 'LayerData', 'SimStats', 'StartPingCheck', 'CompletePingCheck', 'AlertMessage']


# addresses which are different, though not by much
CLOSE = [('10.0.1.1', 13000), ('10.0.1.11', 3000), ('10.0.11.1', 13000), ('10.0.1.1', 13256), ('10.0.1.1', 3000), ('10.1.0.1', 13000)]


class Gen(object):

    def __init__(self, seed, salt):
        h = 7
        for c in salt:
            h = h * 131 + ord(c)
        self.rng = RNG(mix(seed) ^ mix(h & ((1 << 63) - 1)))
        self.seed = seed
        self.tok = 0
        self.sid = 0
        self.codec = P.codec
        self.flavors = P.flavors
        self.names_all = P.allowed
        self.names_banned = P.banned
        self.ops = []
        self.t_end = 20.0

    # ---- small choices
    def cs(self):
        return self.rng.bits(40)

    def token(self, name):
        if self.codec.msgs[name].has_uuid is None:
            return None
        self.tok += 1
        return self.tok

    def when(self, lo=0.5, hi=None):
        return round(self.rng.uniform(lo, hi or self.t_end), 3)

    def rate(self, *choices):
        return self.rng.choice(choices or (0.0, 0.0, 0.05, 0.2, 0.5))

    def has_token(self, n):
        return self.codec.msgs[n].has_uuid is not None

    def pool(self, hot, n, tokened=False):
        """message names used in this run"""
        rng = self.rng
        out = []
        while len(out) < n:
            x = rng.choice(hot) if rng.below(2) else rng.choice(self.names_all)
            if x == 'PacketAck' or x not in self.codec.msgs or self.flavors.get(x, 'template') != 'template':
                continue
            if tokened and not self.has_token(x):
                continue
            out.append(x)
        return out

    # ---- configuration
    def config(self, npeers=1, nsessions=1, kind='manager', faults=1.0, tick=True, step=None, sched=None):
        rng = self.rng
        peers = []
        close = rng.below(5) == 0
        for i in range(npeers):
            pc = dict(ack=rng.choice([1.0, 1.0, 0.7, 0.3, 0.0]), ack_style=rng.choice(['packet', 'append', 'mixed']),
                      ack_delay=rng.choice([0.0, 0.0, 0.3, 2.0]), dup_ack=rng.choice([0.0, 0.0, 0.3]), resend=rng.choice([0, 2]))
            if rng.below(3) == 0:
                pc['seq0'] = rng.choice([200, 250, 65500, 65530, 2 ** 24 - 20, 2 ** 31 - 10, 2 ** 32 - 60, 2 ** 32 - 10])
            # several circuits may live behind one ip address
            ip = '10.0.1.%d' % (1 + (i if rng.below(3) else 0))
            addr = [ip, 13000 + i]
            if close and i < len(CLOSE):
                addr = list(CLOSE[i])
            peers.append(dict(name='p%d' % i, addr=addr, cfg=pc))
        net = {}
        if faults and rng.chance(0.85):
            net = dict(drop=self.rate() * faults, dup=self.rate() * faults, slow=self.rate(0.0, 0.1, 0.4, 0.8) * faults)
            if rng.below(3) == 0:
                net['senderr'] = self.rate(0.05, 0.2)
        sessions = []
        for i in range(nsessions):
            sc = dict(host='p%d' % (i % npeers), kind=kind, subs=[], settings={}, own_handler=rng.below(4), defaults=rng.below(2))
            if kind == 'manager' and rng.below(6) == 0:
                sc['autostart'] = 1
            if kind == 'manager' and tick:
                sc['tick'] = rng.choice([0.3, 0.5, 1.0, 2.0])
            if rng.below(4) == 0:
                sc['settings']['ENABLE_DEFERRED_PACKET_PARSING'] = False
            sessions.append(sc)
        return dict(peers=peers, sessions=sessions, net=net, http={}, one_host=rng.below(2), step=rng.choice([0.0002, 0.0005, 0.003]) if step is None else step,
                    sched=rng.choice([0.0, 0.1, 0.3, 0.6]) if sched is None else sched)

    def http_faults(self, k=1.0):
        rng = self.rng
        if rng.chance(0.2):
            return {}
        kinds = ['refused', 'reset_req', 'reset_resp', 'trunc', 'err_before', 'err_after', 'garbage_before', 'garbage_after']
        out = dict(slow=self.rate(0.0, 0.2, 0.6), seg=self.rate(0.0, 0.3, 0.8))
        for x in rng.sample(kinds, rng.randint(1, 4)):
            out[x] = self.rate(0.1, 0.2, 0.4) * k
        return out

    def sub(self, name, beh=None, args=None, kw=None):
        self.sid += 1
        spec = dict(sid=self.sid, name=name, fk=self.sid % 3)
        if beh:
            spec['beh'] = beh
        if args:
            spec['args'] = args
        if kw:
            spec['kw'] = kw
        return spec

    def random_subs(self, names, n, behs=None, wild=False):
        """subscriptions of one session; `behs` weights behaviours"""
        rng = self.rng
        out = []
        for _ in range(n):
            name = rng.choice(names)
            spec = self.sub(name)
            if wild and rng.below(3) == 0:
                spec['args'] = [spec['sid']] + rng.choice([[], [], [['a', {'b': [1]}]], [None, u'caf\xe9']])
                if rng.below(2):
                    spec['kw'] = {'tag': spec['sid']}
                mates = [x for x in out if x['name'] == name and x.get('args')]
                if mates and rng.below(2):
                    spec['share'] = mates[0].get('share', mates[0]['sid'])
                    spec['beh'] = None
            elif wild and rng.below(4) == 0:
                # the very same subscription once more
                mates = [x for x in out if not x.get('beh')]
                if mates:
                    m = rng.choice(mates)
                    spec.update(name=m['name'], share=m.get('share', m['sid']), fk=m['fk'], beh=None, twin=1)
                    for k in ('args', 'kw'):
                        if k in m:
                            spec[k] = m[k]
            if behs and 'share' not in spec:
                spec['beh'] = self.behaviours(behs, names, out)
            out.append(spec)
        return out

    def behaviours(self, behs, names, others):
        rng = self.rng
        out = []
        if rng.chance(behs.get('none', 0.5)):
            return out
        for _ in range(rng.randint(1, 2)):
            k = rng.weighted([(x, w) for x, w in sorted(behs.items()) if x != 'none'])
            on = rng.randint(1, 4)
            if k == 'yield':
                b = dict(k='yield', d=rng.choice([0, 0, 0.05, 0.7]))
                if rng.below(2):
                    b['on'] = on
            elif k == 'raise':
                b = dict(k='raise', x=rng.below(33))
                if rng.below(3):
                    b['on'] = on
                out.append(b)
                break
            elif k == 'unsub':
                b = dict(k='unsub', sid=rng.choice([self.sid] + [x['sid'] for x in others]), on=on)
            elif k == 'sub':
                b = dict(k='sub', spec=self.sub(rng.choice(names)), on=on)
            elif k == 'enq':
                b = self.out_op(self.out_names, 'enq')
                b.update(k='enq', on=on)
                b.pop('t', None)
            elif k == 'send':
                b = self.out_op(self.out_names, 'send')
                b.update(k='send', on=on)
                b.pop('t', None)
            elif k == 'sendbad':
                b = self.bad_op('sendbad')
                b.update(k='sendbad', on=on)
            elif k == 'fwd':
                b = self.out_op(self.out_names, rng.choice(['send', 'send', 'enq']))
                b = dict((x, b[x]) for x in b if x not in ('op', 'name', 'cs', 'tok', 'small', 'obj'))
                b.update(k='fwd', how='retries' in b and 'send' or 'enq', on=on)
            else:
                b = dict(k='stop', on=on)
            out.append(b)
        return out

    # ---- operations
    def out_op(self, names, op, small=1):
        rng = self.rng
        name = rng.choice(names)
        d = dict(op=op, name=name, cs=self.cs(), tok=self.token(name), rel=rng.below(2))
        if not small:
            d['small'] = 0
        if rng.below(10) == 0:
            d['fac'] = 1
        if op == 'enq' and rng.below(5) == 0:
            d['now'] = 1
        if op == 'send':
            d['retries'] = rng.choice([0, 0, 0, 1, 2, 3, 5])
            if d['retries'] == 0 and rng.below(2):
                d['via'] = 1
            if rng.below(8) == 0:
                d['edit'] = rng.choice([1, 2])
        return d

    def bad_op(self, op):
        rng = self.rng
        how = rng.choice(['noblock', 'novar', 'badvalue', 'unknown', 'banned', 'novar'])
        names = self.names_banned if how == 'banned' else [n for n in HOT_OUT if n in self.codec.msgs]
        if not names:
            how = 'unknown'
            names = ['ChatFromViewer']
        return dict(op=op, name=rng.choice(names), cs=rng.bits(16), how=how, x=rng.below(8), y=rng.below(8), rel=rng.below(2))

    def add(self, t, op, a=None, **kw):
        d = dict(op, t=round(t, 3)) if isinstance(op, dict) else dict(op=op, t=round(t, 3))
        if a is not None:
            d['a'] = a
        d.update(kw)
        self.ops.append(d)
        return d

    def silence(self, cfg):
        """the host of the session is an address which nothing comes from, and
        (mostly) nothing is sent to"""
        rng = self.rng
        names = [p['name'] for p in cfg['peers']]
        cfg['peers'].append(dict(name='px', addr=['10.0.2.1', 12000], cfg=dict(ack=0.0, resend=0)))
        sc = cfg['sessions'][0]
        sc['host'] = 'px'
        sc['ticker'] = names[0]
        quiet = rng.below(3)
        ops = []
        for o in self.ops:
            if o['op'].startswith('enq') or o['op'] == 'crowd' and o.get('how') == 'enq':
                if quiet:
                    continue
            elif o['op'] in ('send', 'crowd', 'sendbad') and 'p' not in o:
                o['p'] = rng.choice(names)
            ops.append(o)
        self.ops = ops

    def finish(self, cfg, until, quiet_at):
        cfg['until'], cfg['quiet_at'] = until, quiet_at
        ops = sorted(self.ops, key=lambda o: o['t'])
        for o in ops:
            if o['op'] == 'start' and o['t'] > 0:
                cfg['sessions'][o.get('s', 0)].pop('autostart', None)
        return dict(cfg=cfg, ops=ops)

    # ---- traffic blocks
    def peer_traffic(self, cfg, n, names, s=None, rel=0.6, peers=None, small=True):
        rng = self.rng
        for _ in range(n):
            p = rng.choice(peers) if peers else None
            name = rng.choice(names)
            op = dict(op='psend', name=name, cs=self.cs(), rel=int(rng.chance(rel)), zero=int(rng.chance(0.3)))
            if rng.below(small and 20 or 4) == 0:
                op['small'] = 0
            if self.has_token(name) and rng.below(2):
                op['tok'] = self.token(name)
            if op['zero'] and rng.below(3) == 0:
                op['split'] = 1
            if rng.below(12) == 0:
                # extra header bytes ahead of the message
                op['hdr'] = ''.join([chr(rng.choice([0, 1, 255, rng.below(256)])) for _ in range(rng.choice([1, 1, 2, 4, 7, 60, 255]))]).decode('latin-1')
            if rng.below(8) == 0:
                op['acks'] = [rng.randint(1, 12) for _ in range(rng.randint(1, 6))]
            self.add(self.when(), op, s=s if s is not None else rng.below(len(cfg['sessions'])), p=p or rng.choice(cfg['peers'])['name'])

    def acks(self, cfg, n, s=None, peers=None):
        """acknowledgements of every sort: true, repeated, unknown, foreign"""
        rng = self.rng
        for _ in range(n):
            p = rng.choice(peers or [x['name'] for x in cfg['peers']])
            ss = s if s is not None else rng.below(len(cfg['sessions']))
            if rng.below(2):
                self.add(self.when(1.0), 'pack_sent', s=ss, p=p, mask=rng.bits(16), style=rng.choice(['packet', 'append']))
            else:
                ids = [rng.choice([rng.randint(1, 15), rng.randint(1, 60), rng.bits(32), 0]) for _ in range(rng.randint(1, 5))]
                self.add(self.when(1.0), 'pack', s=ss, p=p, ids=ids, style=rng.choice(['packet', 'append']))

    def junk(self, cfg, n, names, peers=None, s=None):
        rng = self.rng
        for _ in range(n):
            p = rng.choice(peers or [x['name'] for x in cfg['peers']])
            ss = s if s is not None else rng.below(len(cfg['sessions']))
            k = rng.below(8)
            if k < 5:
                how = rng.choice(['cut', 'cut', 'cut', 'flip', 'set', 'pad', 'drop', 'acks', 'zero'])
                self.add(self.when(), 'mangled', s=ss, p=p, name=rng.choice(names), cs=self.cs(), how=how, x=rng.bits(16), y=rng.bits(8),
                         flags=rng.choice([0, 0x40, 0x40]), zero=rng.below(2), acks=rng.choice([None, None, [1, 2], [rng.bits(8)] * 4]))
            elif k == 5:
                n2 = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 40, 200])
                data = ''.join([chr(rng.below(256)) for _ in range(n2)])
                self.add(self.when(), 'raw', s=ss, p=p, data=data.decode('latin-1'))
            elif k == 6:
                # a header and nothing, or an unknown message number
                num = rng.choice(['\xff\xff\xff\xfe', '\xff\xff\x7f\xff', '\xff\xfe', '\xfd', '\x00', '\xff\xff\xff', '\xff'])
                data = chr(rng.choice([0, 0x40, 0x80, 0xc0, 0x10, 0x50])) + '\0\0\0' + chr(rng.below(200)) + chr(rng.choice([0, 0, 1, 9, 255])) + num
                self.add(self.when(), 'raw', s=ss, p=p, data=data.decode('latin-1'))
            else:
                self.add(self.when(), 'rxerr', s=ss, p=p, n=rng.randint(1, 3))

    def app_traffic(self, cfg, n, names, ops=('enq', 'enq', 'send'), s=None, actors=3, peers=None, small=1):
        rng = self.rng
        for _ in range(n):
            op = self.out_op(names, rng.choice(ops), small if rng.below(4) else 1)
            ss = s if s is not None else rng.below(len(cfg['sessions']))
            if op['op'] == 'send' and rng.below(3) == 0:
                op['p'] = rng.choice(peers or [x['name'] for x in cfg['peers']])
            self.add(self.when(), op, a=rng.below(actors), s=ss)
            if rng.below(6) == 0:
                # a burst at one moment, from several coroutines
                t = self.ops[-1]['t']
                for k in range(rng.randint(1, 5)):
                    self.add(t, self.out_op(names, rng.choice(ops)), a=rng.below(actors), s=ss)

    def many(self, lo, hi):
        """a number of peers: mostly few, now and then a crowd"""
        if self.rng.below(14) == 0:
            return self.rng.choice([9, 17, 33, 65, 70])
        return self.rng.randint(lo, hi)

    def tour(self, cfg, actors=3, bare=False, a=None):
        """something from and to every one of a crowd of peers, again and again"""
        rng = self.rng
        names = [n for n in ('AlertMessage', 'CompletePingCheck', 'StartPingCheck') if n in self.names_all]
        for k in range(rng.choice([2, 3])):
            t = self.when()
            for p in cfg['peers']:
                op = self.out_op(rng.choice([self.out_names, names]), 'send')
                op['p'] = p['name']
                s = rng.below(len(cfg['sessions']))
                if rng.below(3):
                    self.add(t, op, a=a and a[1] or rng.below(actors), s=s)
                if rng.below(3):
                    self.add(t, dict(op='psend', name=rng.choice(names), cs=self.cs(), rel=int(rng.chance(0.5)), zero=0), s=s, p=p['name'])

    def scale(self, cfg, actors=3, how=('send', 'send', 'enq'), bare=False, peers=None, a=None):
        """now and then a lot of everything: crowds of messages in both
        directions, and circuits which have been in use for long"""
        rng = self.rng
        if len(cfg['peers']) > 8:
            self.tour(cfg, actors, bare, a)
        k = rng.below(6)
        if k > 2:
            return
        for _ in range(rng.randint(1, 3)):
            p = rng.choice(peers or [x['name'] for x in cfg['peers']])
            s = rng.below(len(cfg['sessions']))
            small = [n for n in ('AlertMessage', 'CompletePingCheck', 'StartPingCheck') if n in self.names_all]
            name = rng.choice(small)
            if k == 0:
                self.add(self.when(), 'pburst', s=s, p=p, n=bare and rng.choice([20, 100, 254, 255, 256, 257, 300, 520, rng.below(3) and 60 or 1200]) or rng.choice([20, 60]), name=name, cs=self.cs(), rel=rng.choice([1, 1, 1, 0]))
                if bare:
                    # everything is read, then something is sent
                    t = self.ops[-1]['t'] + 3.2
                    self.add(t, 'poll', a=a and a[0] or s, s=s, n=5000)
                    for _ in range(rng.randint(1, 4)):
                        self.add(t, self.out_op(self.out_names, 'send'), a=a and a[1] or s, s=s, p=p)
            elif k == 1:
                op = dict(op='crowd', how=bare and 'send' or rng.choice(how), n=rng.choice([20, 66, 130, 260, rng.below(4) and 40 or 1100]), name=rng.choice([name, name, rng.choice(self.out_names)]), cs=self.cs(),
                          rel=rng.choice([1, 1, 0]), retries=rng.choice([0, 0, 1, 2, 3]))
                if op['how'] == 'send':
                    op['p'] = p
                self.add(self.when(), op, a=a and a[1] or rng.below(actors), s=s)
            else:
                self.add(self.when(), 'age', a=a and a[1] or rng.below(actors), s=s, to=rng.choice([127, 200, 254, 255, 32760, 65500, 65530, 2 ** 24 - 8, 2 ** 31 - 4, 2 ** 32 - 5000]))

    def bad_traffic(self, cfg, n, s=None, actors=3, ops=('enqbad', 'sendbad', 'sendnohost')):
        rng = self.rng
        for _ in range(n):
            k = rng.choice(ops)
            ss = s if s is not None else rng.below(len(cfg['sessions']))
            if k == 'sendnohost':
                op = self.out_op(self.out_names, 'send')
                op.update(op='sendnohost', x=rng.below(5), tok=None)
            else:
                op = self.bad_op(k)
                if k == 'sendbad' and rng.below(3) == 0:
                    op['p'] = rng.choice(cfg['peers'])['name']
            self.add(self.when(), op, a=rng.below(actors), s=ss)

    def net_events(self, cfg, n, kinds=('cut', 'senderr', 'prestart', 'presend', 'rxerr')):
        rng = self.rng
        for _ in range(n):
            k = rng.choice(kinds)
            p = rng.choice(cfg['peers'])['name']
            ss = rng.below(len(cfg['sessions']))
            if k == 'cut':
                self.add(self.when(), 'cut', p=p, s=ss, d=rng.choice([0.5, 2.0, 6.0]))
            else:
                self.add(self.when(), k, p=p, s=ss, n=rng.randint(1, 4))

    def sub_changes(self, cfg, n, names, actors=3):
        rng = self.rng
        for _ in range(n):
            ss = rng.below(len(cfg['sessions']))
            if rng.below(2):
                self.add(self.when(), 'sub', a=rng.below(actors), s=ss, spec=self.sub(rng.choice(names)))
            else:
                self.add(self.when(), 'unsub', a=rng.below(actors), s=ss, sid=rng.randint(1, max(1, self.sid)))

    def events(self, n, s=0, lo=0.2, hi=None, names=None):
        rng = self.rng
        for _ in range(n):
            t = self.when(lo, hi)
            for k in range(rng.choice([1, 1, 1, 3, 6])):
                name = rng.choice(names or [x for x, _ in H.NAMES])
                cs = self.cs()
                self.add(t, 'event', s=s, name=name, cs=cs)
                if rng.below(12) == 0:
                    # the same thing happens twice
                    self.add(t, 'event', s=s, name=name, cs=cs)

    def eq(self):
        rng = self.rng
        return dict(batch=rng.choice([1, 2, 4, 20]), hold=rng.choice([3.0, 10.0, 25.0]), idle=rng.below(4), first_id=rng.choice([0, 1, 1, 7, 2 ** 31 - 5000]),
                    id_step=rng.choice([1, 1, 3, 'random']), final=rng.below(5), ctype=rng.choice(['application/llsd+xml', 'application/llsd+xml; charset=utf-8', 'application/xml']))

    # ---- capability calls
    def cap_op(self, i, ncaps, nseeds):
        rng = self.rng
        m = rng.weighted([('GET', 5), ('POST', 5), ('CUSTOM', 2), ('seed', nseeds and 2)])
        get = m == 'GET'
        good = get and ['application/llsd+xml', 'application/llsd+xml; charset=utf-8', 'application/llsd+xml;charset=UTF-8'] or \
            ['application/llsd+xml', 'application/xml', 'application/llsd+xml; charset=utf-8', 'application/xml; charset=utf-8', 'text/html']
        k = rng.weighted([('ok', 9), ('status', 4), ('ctype', 2), ('garbage', 2), ('close', 1), ('badpayload', m == 'POST' and 1 or 0)])
        r = dict(k=k, d=rng.choice([0.0, 0.0, 0.2, 1.0, 5.0]))
        if k in ('ok', 'badpayload'):
            r['ctype'] = rng.choice(good)
            r['status'] = rng.choice([200, 200, 200, 201, 202])
        elif k == 'status':
            r['status'] = rng.choice([404, 404] + caps.STATUSES)
            r['ctype'] = rng.choice(['text/plain', 'application/llsd+xml', 'text/html'])
            if rng.below(3) == 0:
                r['reason'] = rng.choice(['Odd Reason', 'No', 'It is broken: really'])
        elif k == 'ctype':
            r['ctype'] = rng.choice(['text/plain', 'application/json', 'image/x-j2c', 'text/html', 'text/xml; charset=utf-8', 'application/octet-stream'] + (get and ['application/xml'] or []))
        elif k == 'garbage':
            r['ctype'] = rng.choice([x for x in good if x != 'text/html'])
            r['g'] = rng.below(100)
        op = dict(op='cap', m=m, id=i, cs=self.cs(), resp=r, cap=m == 'seed' and 100 + rng.below(nseeds) or rng.below(ncaps))
        if m != 'seed' and rng.below(2):
            h = {}
            for name, vals in (('X-Token', ['t%d' % i]), ('Accept', ['application/llsd+xml', '*/*']), ('X-SecondLife-UDP-Listen-Port', ['13000']), ('Content-type', ['application/xml', 'text/plain'])):
                if rng.below(2) and not (get and name == 'Content-type'):
                    h[name] = rng.choice(vals)
            op['headers'] = h
        if m == 'seed':
            op['names'] = rng.below(5)
        elif nseeds and rng.below(3) == 0:
            op['cap'] = 200 + rng.below(20)
        return op

    def cap_traffic(self, cfg, n, actors=5, first=0, t_end=None):
        rng = self.rng
        cfg['capservers'] = rng.randint(1, 2)
        cfg['shared_client'] = rng.below(3) == 0
        cfg['urls'] = rng.below(8)
        ncaps, nseeds = rng.randint(1, 5), rng.below(3)
        t = 0.1
        for i in range(n):
            if rng.below(2):
                t = self.when(0.1, t_end)
            self.add(t, self.cap_op(first + i, ncaps, nseeds), a=rng.below(actors))
