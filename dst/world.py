"""Worlds: one simulated deployment of the library (sessions, peers, HTTP
servers, application coroutines), a plan of operations, and the oracles."""
import os
import socket
import struct
import zlib

from core import CTX, Sim, Choices, RNG, TaskKilled, Hang
import core
import codec as C
import content as K
import udp
import http
import caps
import env
from env import P

SCRATCH = os.environ.get('DST_SCRATCH', '/tmp')


class Violation(object):
    def __init__(self, tags, cls, msg, t):
        # the message may quote anything, the reports are JSON
        if not isinstance(msg, unicode):
            msg = msg.decode('latin-1')
        self.tags, self.cls, self.msg, self.t = tags, cls, msg.encode('ascii', 'backslashreplace'), t

    def key(self):
        return self.cls


class HandlerError(Exception):
    pass


def _kinds():
    out = [HandlerError]
    for base in (KeyError, AssertionError, ValueError, AttributeError, TypeError, IndexError, StopIteration, socket.error, NotImplementedError, UnicodeError):
        out.append(type('Handler' + base.__name__, (HandlerError, base), {}))
    return out


class Callee(object):
    """a handler of another kind than a function"""

    def __init__(self, fn):
        self.fn = fn

    def method(self, *args, **kw):
        return self.fn(*args, **kw)

    __call__ = method


class Fn(object):
    """a handler as the application names it when it (un)subscribes"""

    def __init__(self, fn, kind):
        self.kind, self.group = kind, fn.group
        self.obj = kind and Callee(fn) or fn

    def get(self):
        # every access to a method makes a new object
        return self.kind == 2 and self.obj.method or self.obj


KINDS = []


class Sub(object):
    """one subscription as the model sees it"""

    def __init__(self, sid, spec):
        self.sid, self.spec = sid, spec
        self.fn = None
        self.calls = 0
        self.live = True

    def raises(self):
        """does the call in progress end with an exception?"""
        for b in self.spec.get('beh') or []:
            if b['k'] == 'raise' and b.get('on', self.calls) == self.calls:
                return True
        return False

    def equals(self, other):
        return self.fn is other.fn and self.spec['name'] == other.spec['name'] and self.args() == other.args() and self.kw() == other.kw()

    def args(self):
        return tuple(self.spec.get('args', ()))

    def kw(self):
        return dict((str(k), v) for k, v in (self.spec.get('kw') or {}).items())


def choose(pool, n):
    """the ways to take n of the pool, in its order"""
    if n == 0:
        return [[]]
    return [[x] + rest for i, x in enumerate(pool) for rest in choose(pool[i + 1:], n - 1)]


class Rec(object):
    """one message the client sent: what the peer should see of it"""
    __slots__ = ('seq', 'dst', 'name', 'reliable', 'budget', 'attempts', 'acked', 'maybe', 'first',
                 'payload', 'token', 'born')


class Session(object):
    """a MessageManager or bare UDPDispatcher plus the model of it"""

    def __init__(self, world, idx, cfg):
        self.w = world
        self.idx = idx
        self.cfg = cfg
        self.kind = cfg.get('kind', 'manager')
        self.mm = None
        self.addr = None
        self.next_seq = {}
        self.refused = {}
        self.msgs = {}                   # (dst, seq) -> Rec
        self.owed = {}                   # src -> {seq: rx index}
        self.may_ack = {}                # src -> set of seqs it may acknowledge
        self.subs = {}                   # name -> [Sub] as subscribed now
        self.by_sid = {}
        self.deliveries = []
        self.window = None               # the round in progress
        self.queue = []                  # model of the outgoing queue
        self.objects = {}                # id(message) -> [message, [Ent], [outgoing handler calls]]
        self.cur_q = None                # taken from the queue, not on the wire yet
        self.rounds_open = []
        self.fns = {}
        self.notifiers = {}              # name -> as registered first
        self.dynamic = set()             # names whose subscriptions changed during the run
        self.eq_after_stop = 0
        self.eqsrv = None
        self.stop_calls = 0
        self.final_windows = 0
        self.stop_time = None
        self.in_direct = {}              # tid -> current direct send
        self.stopped = False
        self.started = False
        self.tasks = []
        self.last_rx = 0
        self.start_at = 0
        self.windows_done = 0
        self.dispatching = []
        self.results = []                # what direct sends returned

    def settings(self):
        s = P.Settings(**dict((str(k), v) for k, v in self.cfg.get('ctor', {}).items()))
        for k, v in sorted(self.cfg.get('settings', {}).items()):
            setattr(s, k, v)
        return s


class World(caps.CapOps):

    def __init__(self, plan, choices, light=False):
        self.plan = plan
        cfg = self.cfg = plan['cfg']
        self.viol = []
        self.ch = choices
        sim = self.sim = Sim(choices, cfg.get('step', 0.0005), cfg.get('sched', 0.25))
        sim.sleep_hook = None
        self.codec = self.base_codec = P.codec
        self.flavors = P.flavors
        self.net = udp.Net(sim, cfg.get('net'))
        self.http = http.Http(sim, cfg.get('http'))
        CTX.sim, CTX.net, CTX.http = sim, self.net, self.http
        self.net.on_tx, self.net.on_rx, self.net.on_rx_wait = self._tx, self._rx, self._rx_wait
        self.sessions = []
        self.by_sock = {}
        core.CTX.world = self
        self.twins = {}
        self.expected = {}               # token -> dict of what was asked to be sent
        self.sent_tokens = {}
        self.delivery_log = []
        self.actor_tids = {}
        self.peers = {}
        self.notes = {}
        self.shared = {}
        self.op_results = []
        self.http_ops = []
        sim.spawn_hook = self._spawned
        self.spawning = None
        self.blocked_by = None
        sim.world = self
        self.until = cfg.get('until', 30.0)
        self.quiet_at = cfg.get('quiet_at', self.until * 0.6)

    # ---- bookkeeping
    def bad(self, tags, cls, msg, *args):
        if args:
            try:
                msg = msg % args
            except UnicodeError:
                msg = '%s %s' % (msg, ' '.join([repr(a) for a in args]))
        if isinstance(tags, str):
            tags = tags.split()
        if self.viol:
            return                       # the first one counts
        msg = core.no_address(msg)
        self.viol.append(Violation(tags, cls, msg, self.sim.rel()))
        self.sim.rec('violation', cls, msg)
        self.sim.stop_requested = True

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def _spawned(self, task, fn):
        if self.spawning is not None:
            self.spawning.append(task)
        else:
            s = self.session_of_task(self.sim.current)
            if s is not None:
                s.tasks.append(task)

    def session_of_task(self, task):
        if task is None:
            return None
        for s in self.sessions:
            if task in s.tasks:
                return s
        return None

    # ---- construction
    def add_peer(self, spec):
        p = udp.Peer(self.net, spec['name'], tuple(spec['addr']), self.codec, spec.get('cfg'))
        self.peers[p.name] = p
        return p

    def settings_of(self, s):
        if not self.cfg.get('one_settings'):
            return s.settings()
        k = repr((sorted(s.cfg.get('ctor', {}).items()), sorted(s.cfg.get('settings', {}).items())))
        if k not in self.shared:
            self.shared[k] = s.settings()
        else:
            self.note('shared_settings')
        return self.shared[k]

    def host(self, addr):
        """what the application names a peer by"""
        if not self.cfg.get('one_host'):
            return P.Host(addr)
        return self.shared.setdefault(addr, P.Host(addr))

    def add_session(self, idx, cfg):
        s = Session(self, idx, cfg)
        self.sessions.append(s)
        peer = self.peers[cfg['host']]
        s.peer = peer
        s.host_addr = peer.addr
        if cfg.get('skip'):
            # leave its place empty, so that nothing else moves
            self.net.next_port += 1
            s.addr = (udp.CLIENT_IP, self.net.next_port)
            if cfg.get('eq'):
                self.http.next_host += 1
            return s
        settings = self.settings_of(s)
        handler = P.MessageHandler(settings) if cfg.get('own_handler', 1) else None
        if cfg.get('defaults') and not cfg.get('settings') and not cfg.get('ctor') and not self.cfg.get('one_settings'):
            settings = None              # the library's own defaults
            self.note('default_settings')
        before = set(self.net.sockets)
        kw = {}
        if self.cfg.get('template'):
            kw['message_template'] = self.open_scratch('template', self.cfg['template'])
        if s.kind == 'manager':
            caps = {}
            if cfg.get('eq'):
                caps['EventQueueGet'] = self.make_eq(s, cfg['eq'], settings)
            if self.cfg.get('xml'):
                kw['message_xml'] = self.open_scratch('xml', self.cfg['xml'])
            if cfg.get('eq') or not cfg.get('default_caps'):
                kw['capabilities'] = caps
            if cfg.get('autostart'):
                # started by its constructor
                kw['start_monitors'] = True
                self.spawning = s.tasks
                s.started = True
                s.last_rx = self.sim.now
                self.note('autostart')
            s.mm = P.MessageManager(self.host(peer.addr), message_handler=handler, settings=settings, **kw)
            self.spawning = None
            s.ud = s.mm.udp_dispatcher
            s.handler = s.mm.message_handler
        else:
            if self.cfg.get('xml'):
                kw['message_xml'] = P.MessageDotXML(message_xml=self.cfg['xml'])
            s.ud = P.UDPDispatcher(settings=settings, message_handler=handler, **kw)
            s.handler = s.ud.message_handler
        s.settings_obj = settings or s.ud.settings
        new = [a for a in self.net.sockets if a not in before]
        assert len(new) == 1, new
        s.addr = new[0]
        s.sock = self.net.sockets[s.addr]
        self.by_sock[s.addr] = s
        for sub in cfg.get('subs', []):
            self.subscribe(s, sub)
        return s

    def make_eq(self, s, eqcfg, settings):
        srv = http.EQServer(self.http, eqcfg, 'eq%d' % s.idx)
        s.eqsrv = srv
        srv.world = self
        srv.session = s
        name = eqcfg.get('capname', 'EventQueueGet')
        return P.Capability(name, srv.url, settings=settings)

    # ---- subscriptions
    def subscribe(self, s, spec):
        name = spec['name']
        sub = Sub(spec['sid'], spec)
        share = spec.get('share')
        if share is not None and share in s.fns:
            sub.fn = s.fns[share]
            sub.fn.group.append(sub)
        else:
            sub.fn = s.fns[sub.sid] = Fn(self.make_handler(s, sub), spec.get('fk', 0))
        s.by_sid[spec['sid']] = sub
        s.subs.setdefault(name, []).append(sub)
        self.subs_changed(s, name, sub.sid)
        self.notifier(s, sub).subscribe(sub.fn.get(), *sub.args(), **sub.kw())

    def notifier(self, s, sub):
        """what the handler is (un)subscribed to: registered just now, or
        when its name was first heard of"""
        name = sub.spec['name']
        if name not in s.notifiers:
            s.notifiers[name] = s.handler.register(name)
        fresh = s.handler.register(name)
        if sub.sid % 2:
            return s.notifiers[name]
        return fresh

    def subs_changed(self, s, name, sid):
        if s.started:
            s.dynamic.add(name)
        for d in s.dispatching:
            nm = d['name']
            if nm == name or (isinstance(nm, dict) and name in nm):
                d['changed'].add(sid)

    def unsubscribe(self, s, sid):
        sub = s.by_sid.get(sid)
        if sub is None:
            return
        name = sub.spec['name']
        # of equal subscriptions the first is removed
        equal = [x for x in s.subs.get(name, []) if sub.equals(x)]
        present = bool(equal)
        if present:
            sub, sid = equal[0], equal[0].sid
        before = len(s.handler.register(name))
        try:
            self.notifier(s, sub).unsubscribe(sub.fn.get(), *sub.args(), **sub.kw())
            if not present:
                self.bad('C07', 'unsubscribe-unknown', 'removing a handler that is not subscribed to %s raised nothing', name)
        except ValueError:
            if present:
                self.bad('C07', 'unsubscribe-failed', 'removing a subscribed handler of %s raised ValueError', name)
            self.note('unsub_valueerror')
        except Exception, e:
            self.bad('C07', 'unsubscribe-raised', 'removing a handler of %s raised %s: %s', name, type(e).__name__, e)
        if present:
            s.subs[name].remove(sub)
            sub.live = False
            self.subs_changed(s, name, sid)
        elif len(s.handler.register(name)) != before:
            self.bad('C07', 'unsubscribe-changed', 'removing an unknown handler changed the subscribers of %s', name)

    def make_handler(self, s, first):
        world, sim = self, self.sim
        group = [first]

        def handler(msg, *args, **kw):
            sub = first
            if len(group) > 1:
                sub = world.which(s, group, msg, args)
            sub.calls += 1
            task = sim.current
            e = dict(s=s.idx, sid=sub.sid, name=msg.name, msg=msg, snap=K.snapshot(msg), t=sim.now, live=sub.live,
                     tid=-1 if task is None else task.tid, step=sim.steps, call=sub.calls, window=s.window)
            world.delivery_log.append(e)
            sim.rec('deliver', s.idx, sub.sid, msg.name, K_digest(e['snap']))
            if sub.args() != args or sub.kw() != kw:
                world.bad('C07', 'handler-args', 'handler %d of %s got arguments %r %r', sub.sid, msg.name, args, kw)
            wrong = K.dict_differs(msg, e['snap'])
            if wrong:
                world.bad('C05 C10', 'dict-form', 'the dictionary form of a %s is wrong: %s', msg.name, wrong)
            world.delivered(s, sub, e)
            call = sub.calls
            for b in sub.spec.get('beh') or []:
                if 'on' in b and b['on'] != call:
                    continue
                world.behave(s, sub, b, e)
        handler.group = group
        return handler

    def which(self, s, group, msg, args):
        """the subscription a call of a shared handler is for; equal ones
        are taken to be called in their order"""
        mine = [x for x in group if x.args() == args and x.spec['name'] == msg.name]
        if len(mine) < 2:
            return (mine or group)[-1 if mine else 0]
        if s.cfg.get('settings', {}).get('HANDLE_OUTGOING_PACKETS'):
            return mine[-1]
        key = (group[0].sid, id(msg))
        done = self.twins.setdefault(key, (msg, []))[1]
        self.note('twin_calls')
        for x in mine:
            if x.sid not in done and (x.live or [d for d in s.dispatching if x.sid in d['changed'] and self.sim.current.tid in (d.get('task'), d.get('tid'))]):
                break
        else:
            x = ([x for x in mine if x.sid not in done] or mine)[0]
        done.append(x.sid)
        return x

    def behave(self, s, sub, b, e):
        """what an application handler does when called"""
        k = b['k']
        if k == 'yield':
            self.sim.sleep(b.get('d', 0))
        elif k == 'raise':
            self.note('handler_raised')
            self.sim.stat('fault.handler_raise')
            kinds = self.notes_kinds()
            raise kinds[b.get('x', 0) % len(kinds)](*[('simulated handler failure',), (u'caf\xe9 \u65e5',), ()][b.get('x', 0) % 3 if b.get('x') else 0])
        elif k == 'unsub':
            self.unsubscribe(s, b['sid'])
        elif k == 'sub':
            if b['spec']['sid'] not in s.by_sid:
                self.subscribe(s, b['spec'])
        elif k in ('enq', 'send', 'stop', 'enqbad', 'sendbad'):
            self.do_op(s, dict(b, op=k))
        elif k == 'fwd':
            self.forward(s, e, b)

    def forward(self, s, e, b):
        """a handler sends on the very message it was given"""
        w = s.window
        if e.get('kind') != 'udp' or e['name'] == 'PacketAck' or w is None or w['dec'] is None or w['dec']['name'] != e['name'] or s.cfg.get('settings', {}).get('HANDLE_OUTGOING_PACKETS'):
            return
        if b['how'] == 'enq' and s.mm is None:
            return
        content = K.resendable(self.codec, e['name'], w['dec']['content'])
        if content is None:
            return
        self.note('forwarded')
        op = dict((k, b[k]) for k in b if k not in ('k', 'on', 'how'))
        self.do_op(s, dict(op, op=b['how'], name=e['name'], ready=(e['msg'], content), tok=K.token_of(self.codec, e['name'], content)))

    # ---- operations
    def run(self):
        """execute the plan; returns self"""
        sim = self.sim
        try:
            self.setup()
            actors = {}
            for op in self.plan['ops']:
                if op.get('a') is None:
                    sim.at(sim.t0 + op['t'], self._hub_op, op)
                else:
                    actors.setdefault(op['a'], []).append(op)
            for a in sorted(actors):
                t = sim.spawn('app%s' % a, self._actor, a, actors[a])
                self.actor_tids[t.tid] = a
            sim.at(sim.t0 + self.quiet_at, self._quiet)
            sim.run(self.until, self.cfg.get('max_steps', 60000))
            if not self.viol:
                self.check_end()
        finally:
            try:
                if self.viol and self.viol[-1].cls == 'hang':
                    pass
                else:
                    sim.finish()
            finally:
                self.teardown()
        return self

    def setup(self):
        if self.cfg.get('log_handler'):
            env.log_on()
        for spec in self.cfg.get('peers', []):
            self.add_peer(spec)
        self.prepare_files()
        self.cap_setup()
        self.waits = {}
        for i, scfg in enumerate(self.cfg.get('sessions', [])):
            self.add_session(i, scfg)
        for t, i, switches in self.cfg.get('toggles', []):
            self.sim.at(self.sim.t0 + t, self._toggle, i, switches)
        for s in self.sessions:
            if s.cfg.get('tick') and not s.cfg.get('skip'):
                self._tick(s)

    def prepare_files(self):
        self.files = []
        if self.cfg.get('template'):
            self.codec = codec_of(self.cfg['template'])
            for p in self.peers.values():
                p.codec = self.codec
        if self.cfg.get('xml'):
            self.flavors = flavors_of(self.cfg['xml'])

    def open_scratch(self, kind, text):
        """the library only accepts real file objects"""
        path = os.path.join(SCRATCH, '%s-%08x' % (kind, zlib.crc32(text) & 0xffffffff))
        if not os.path.exists(path):
            f = open(path, 'wb')
            f.write(text)
            f.close()
        f = open(path, 'rb')
        self.files.append(f)
        return f

    def teardown(self):
        if self.cfg.get('log_handler'):
            env.log_off()
        CTX.sim = CTX.net = CTX.http = None
        for f in self.files:
            try:
                f.close()
            except Exception:
                pass

    def _toggle(self, i, switches):
        """the application changes its mind about settings"""
        if i < len(self.sessions) and not self.sessions[i].cfg.get('skip'):
            for k, v in sorted(switches.items()):
                setattr(self.sessions[i].settings_obj, k, v)
            self.note('toggles')

    def _tick(self, s):
        """the region keeps talking: unreliable pings drive the pump"""
        if self.sim.killing:
            return
        peer = s.cfg.get('ticker') and self.peers[s.cfg['ticker']] or s.peer
        peer.send(s.addr, 'StartPingCheck', {'PingID': [{'PingID': peer.seq & 255, 'OldestUnacked': 0}]})
        self.sim.after(s.cfg['tick'], self._tick, s)

    def _quiet(self):
        """faults stop; what must eventually happen has to happen now"""
        self.net.quiet = True
        self.http.quiet = True
        self.net.cut.clear()
        self.net.fail_next.clear()
        self.sim.rec('quiet')

    def _actor(self, a, ops):
        sim = self.sim
        for op in ops:
            d = sim.t0 + op['t'] - sim.now
            if d > 0:
                sim.sleep(d)
            self.do_op(self.sessions[op.get('s', 0)] if self.sessions else None, op)

    def _hub_op(self, op):
        k = op['op']
        s = self.sessions[op.get('s', 0)] if self.sessions else None
        getattr(self, 'hop_' + k)(s, op)

    def do_op(self, s, op):
        return getattr(self, 'op_' + op['op'])(s, op)

    # hub operations (the environment)
    def dest(self, s):
        return s.addr

    def hop_psend(self, s, op):
        p = self.peers[op['p']]
        content = K.make(self.codec, op['name'], op['cs'], op.get('tok'), op.get('small', 1))
        p.send(s.addr, op['name'], content, op.get('rel', 0), op.get('zero', 0), op.get('acks'),
               hdr=op.get('hdr', '').encode('latin-1'), split=op.get('split') and RNG(op['cs']) or None)

    def hop_pburst(self, s, op):
        """many small reliable (or not) datagrams in one go"""
        p = self.peers[op['p']]
        for i in range(op['n']):
            p.send(s.addr, op['name'], K.make(self.codec, op['name'], op['cs'] + i, None, 1), op.get('rel', 1))

    def hop_pack(self, s, op):
        """acknowledge arbitrary ids (also foreign and unknown ones)"""
        p = self.peers[op['p']]
        p.send_acks(s.addr, op['ids'], op.get('style', 'packet'))

    def hop_pack_sent(self, s, op):
        """acknowledge what was received so far, selected by op['mask']"""
        p = self.peers[op['p']]
        ids = [d['seq'] for d in p.got if d.get('flags', 0) & C.RELIABLE]
        ids = sorted(set(ids))
        pick = [x for i, x in enumerate(ids) if (op['mask'] >> (i % 16)) & 1]
        if pick:
            p.send_acks(s.addr, pick[-200:], op.get('style', 'packet'))

    def hop_raw(self, s, op):
        p = self.peers[op['p']]
        p.raw(s.addr, op['data'].encode('latin-1'))

    def hop_mangled(self, s, op):
        """a well formed datagram, damaged in a planned way"""
        p = self.peers[op['p']]
        content = K.make(self.codec, op['name'], op['cs'], None, 1)
        data = self.codec.encode(op['name'], content, p.next_seq(), op.get('flags', 0), op.get('acks'), op.get('zero', 0))
        p.raw(s.addr, mangle(data, op['how'], op['x'], op['y']))
        self.sim.stat('fault.mangled')

    def hop_cut(self, s, op):
        addr = self.peers[op['p']].addr
        self.net.cut.add(addr)
        self.sim.stat('fault.partition')
        self.sim.after(op['d'], self.net.cut.discard, addr)

    def hop_senderr(self, s, op):
        self.net.fail_next[self.peers[op['p']].addr] = op['n']

    def hop_rxerr(self, s, op):
        for _ in range(op['n']):
            s.sock.inject_error()

    def hop_prestart(self, s, op):
        """the peer restarts: it forgets everything and counts from 1 again"""
        p = self.peers[op['p']]
        p.seq = 0
        p.unacked.clear()
        p.owed = []
        self.sim.stat('fault.peer_restart')

    def hop_presend(self, s, op):
        self.peers[op['p']].resend_unacked()

    def hop_event(self, s, op):
        s.eqsrv.add_event(op)

    def hop_eqdown(self, s, op):
        """the server goes away for a while; its queue survives"""
        srv = s.eqsrv
        srv.down = True
        self.sim.stat('fault.server_down')
        for c in self.http.inflight_of(srv):
            c.e['outcome'] = c.e['outcome'] or 'reset_req'
            c.reset()
        srv.held = None

        def up():
            srv.down = False
        self.sim.after(op['d'], up)

    # application operations
    def op_start(self, s, op):
        if s.cfg.get('autostart'):
            return
        self.spawning = s.tasks
        try:
            s.mm.start_monitors()
        except Exception, e:
            self.bad('C09 C10 C11', 'start-raised', 'start_monitors raised %s: %s', type(e).__name__, e)
        self.spawning = None
        s.started = True
        s.start_at = self.sim.rel()
        s.last_rx = self.sim.now

    def op_stop(self, s, op):
        if not s.started and [o for o in self.plan['ops'] if o['op'] == 'start' and o.get('s', 0) == s.idx]:
            return                       # stopping ahead of the start is not supported
        s.stop_calls += 1
        if not s.stopped:
            s.stopped = True
            s.stop_step = self.sim.steps
            s.stop_time = self.sim.now
            s.stop_in_window = s.window is not None
            self.note('stops')
            if s.window is not None:
                self.note('stop_in_window')
            if s.eqsrv is not None and self.http.inflight_of(s.eqsrv):
                self.note('stop_during_poll')
        try:
            s.mm.stop_monitors()
        except TaskKilled:
            raise
        except Exception, e:
            self.bad('C09', 'stop-raised', 'stop_monitors raised %s: %s', type(e).__name__, e)

    def message(self, op):
        """(library message, expectation) for a send operation"""
        name = op['name']
        if 'ready' in op:
            return op['ready']
        if 'obj' in op and ('obj', op['obj']) in self.notes_obj():
            msg, content = self.notes_obj()[('obj', op['obj'])]
        else:
            content = K.make(self.codec, name, op['cs'], op.get('tok'), op.get('small', 1))
            msg = K.build(self.codec, name, content, op['cs'])
            if 'obj' in op:
                self.notes_obj()[('obj', op['obj'])] = (msg, content)
        return msg, content

    def give(self, msg, op):
        """what the application passes: the message, or what returns it"""
        if op.get('fac'):
            self.note('message_factory')
            return lambda: msg
        return msg

    def notes_kinds(self):
        if not KINDS:
            KINDS.extend(_kinds())
        return KINDS

    def notes_obj(self):
        if not hasattr(self, '_objs'):
            self._objs = {}
        return self._objs

    def bad_message(self, op):
        """a message that cannot be serialised"""
        L = K.lib()
        name = op['name']
        content = K.make(self.codec, name, op['cs'], None, 1)
        m = self.codec.msgs[name]
        for b in m.blocks:
            if not content[b.name]:
                content[b.name] = [dict((v.name, K.gen_value(RNG(1), v, True)) for v in b.vars)]
        how = op['how']
        if how == 'unknown':
            return L.Message('NoSuchMessage%d' % op['cs'], L.Block('X', Y=1))
        if how == 'banned':
            self.note('http_only')
            return K.build(self.codec, name, content, op['cs'])
        msg = K.build(self.codec, name, content, op['cs'])
        blks = [b for b in m.blocks if b.vars]
        b = blks[op['x'] % len(blks)]
        if how == 'noblock':
            del msg.blocks[b.name]
        elif how == 'novar':
            v = b.vars[op['y'] % len(b.vars)]
            row = msg.blocks[b.name][-1]
            del row.vars[v.name]
            row.var_list.remove(v.name)
        elif how == 'badvalue':
            v = b.vars[op['y'] % len(b.vars)]
            msg.blocks[b.name][-1].vars[v.name].data = object()
        return msg

    def refuse(self, s, dst):
        s.refused[dst] = s.refused.get(dst, 0) + 1
        self.sim.stat('fault.refused_message')

    def outgoing(self, s, msg, ent):
        """outgoing subscribers may see it"""
        if s.window is not None and [c for c in s.window['calls'] if c['msg'] is msg]:
            return                       # as those of incoming messages do
        s.objects.setdefault(id(msg), [msg, [], []])[1].append(ent)

    def op_enq(self, s, op):
        msg, content = self.message(op)
        if msg is None:
            return
        ent = dict(tok=op.get('tok'), name=op['name'], content=content, rel=bool(op.get('rel')), ok=True,
                   step=self.sim.steps, dst=s.host_addr, budget=1, via='queue', msg=msg)
        self.outgoing(s, msg, ent)
        self.enqueue(s, ent, op)

    def enqueue(self, s, ent, op):
        if ent['tok'] is not None:
            self.expected[ent['tok']] = ent
        if op.get('now'):
            s.queue.insert(0, ent)
            self.note('enqueue_now')
        else:
            s.queue.append(ent)
        ent['stopped'] = s.stopped
        s.mm.enqueue_message(self.give(ent['msg'], op), bool(op.get('rel')), bool(op.get('now')))

    def op_enqbad(self, s, op):
        msg = self.bad_message(op)
        ent = dict(tok=None, name=op['name'], content=None, rel=bool(op.get('rel')), ok=False,
                   step=self.sim.steps, dst=s.host_addr, budget=0, via='queue', msg=msg, how=op['how'])
        self.refuse(s, s.host_addr)
        self.outgoing(s, msg, ent)
        self.enqueue(s, ent, op)

    def op_send(self, s, op):
        """send directly, to the session host or to any other peer"""
        msg, content = self.message(op)
        if msg is None:
            return
        dst = self.peers[op['p']].addr if op.get('p') else s.host_addr
        rel = bool(op.get('rel'))
        retries = op.get('retries', 0)
        ent = dict(tok=op.get('tok'), name=op['name'], content=content, rel=rel, ok=True, step=self.sim.steps,
                   dst=dst, budget=max(1, retries), via='direct', msg=msg, seen=0)
        if ent['tok'] is not None:
            self.expected[ent['tok']] = ent
        self.outgoing(s, msg, ent)
        self.direct(s, ent, dst, rel, retries, msg, op)
        if not ent['seen'] and ent['ok']:
            self.bad('C05 C08 C17 C13 C15', 'not-sent', 'direct send of %s to %s put nothing on the wire', op['name'], self.net.name(dst))
        if op.get('edit') and 'obj' not in op and 'ready' not in op and not self.viol:
            # the message is the application's: it puts other values in, and may send it again
            content = self.edit(msg, content, op)
            if op['edit'] > 1:
                ent = dict(ent, tok=None, content=content, seen=0, step=self.sim.steps, ok=True, ocalls=[])
                self.outgoing(s, msg, ent)
                self.direct(s, ent, dst, rel, retries, msg, op)
                if not ent['seen'] and ent['ok']:
                    self.bad('C05 C08 C17 C13 C15', 'not-sent', 'direct send of %s to %s put nothing on the wire', op['name'], self.net.name(dst))

    def edit(self, msg, content, op):
        other = K.make(self.codec, op['name'], op['cs'] + 1, None, op.get('small', 1))
        new = K.build(self.codec, op['name'], other, op['cs'] + 1)
        out = {}
        for b, rows in content.items():
            out[b] = [dict(r) for r in rows]
            if new is None:
                continue
            for i in range(min(len(rows), len(other[b]))):
                for v in rows[i]:
                    msg.blocks[b][i].vars[v].data = new.blocks[b][i].vars[v].data
                    out[b][i][v] = other[b][i][v]
        self.note('edited')
        return out

    def direct(self, s, ent, dst, rel, retries, msg, op):
        tid = self.sim.current.tid
        prev = s.in_direct.get(tid)
        msg = self.give(msg, op)
        s.in_direct[tid] = ent
        try:
            host = self.host(dst)
            if dst == s.host_addr and s.mm is not None and retries == 0 and op.get('via', 0) == 0:
                s.results.append(s.mm.send_udp_message(msg, rel))
            elif rel:
                s.results.append(s.ud.send_reliable(msg, host, retries))
            else:
                s.results.append(s.ud.send_message(msg, host))
        except TaskKilled:
            raise
        except Exception, e:
            self.note('direct_send_raised')
            if not isinstance(e, HandlerError):
                self.bad('C17', 'send-raised', 'sending %s raised %s: %s', ent['name'], type(e).__name__, e)
        finally:
            if prev is None:
                s.in_direct.pop(tid, None)
            else:
                s.in_direct[tid] = prev

    def op_crowd(self, s, op):
        """many messages from one coroutine in one go"""
        for i in range(op['n']):
            self.do_op(s, dict(op, op=op['how'], cs=op['cs'] + i, tok=None))
        self.note('crowds')

    def op_age(self, s, op):
        """as if the circuit had been in use for a long time: its counter is
        put forward (where it can be found)"""
        cm = getattr(s.ud, 'circuit_manager', None)
        for dst in sorted(s.next_seq):
            c = cm is not None and cm.get_circuit(P.Host(dst)) or None
            last = getattr(c, 'last_packet_out_id', None)
            if type(last) not in (int, long) or last != s.next_seq[dst] - 1 or op['to'] <= last:
                continue
            c.last_packet_out_id = op['to']
            s.next_seq[dst] = op['to'] + 1
            self.note('aged')

    def op_sendbad(self, s, op):
        msg = self.bad_message(op)
        dst = self.peers[op['p']].addr if op.get('p') else s.host_addr
        ent = dict(tok=None, name=op['name'], content=None, rel=bool(op.get('rel')), ok=False, step=self.sim.steps,
                   dst=dst, budget=0, via='direct', msg=msg, seen=0, how=op['how'])
        self.refuse(s, dst)
        self.outgoing(s, msg, ent)
        self.direct(s, ent, dst, bool(op.get('rel')), op.get('retries', 0), msg, op)

    def op_sendnohost(self, s, op):
        """an unusable host: nothing may be sent"""
        msg, content = self.message(op)
        if msg is None:
            return
        n = len(self.net.tx)
        hosts = [(None, None), (0, 0), (None, 13000), ('10.0.1.1', None), ('10.0.1.1', 0)]
        try:
            h = P.Host(hosts[op['x'] % len(hosts)])
            if op.get('rel'):
                s.ud.send_reliable(msg, h, 1)
            else:
                s.ud.send_message(msg, h)
        except TaskKilled:
            raise
        except Exception, e:
            self.bad('C17', 'nohost-raised', 'sending to an unusable host raised %s: %s', type(e).__name__, e)
        mine = [e for e in self.net.tx[n:] if e['task'] == self.sim.current.tid]
        if mine:
            self.bad('C17', 'nohost-sent', 'a message to an unusable host was sent to %s', mine[0]['dst'])

    def op_sub(self, s, op):
        if op['spec']['sid'] not in s.by_sid:
            self.subscribe(s, op['spec'])

    def op_unsub(self, s, op):
        self.unsubscribe(s, op['sid'])

    def op_noop(self, s, op):
        pass

    def op_yield(self, s, op):
        self.sim.yield_()

    def op_busy(self, s, op):
        """another coroutine with work of its own"""
        sim = self.sim
        end = sim.now + op['d']
        while sim.now < end:
            sim.sleep(op.get('nap', 0))
            self.note('busy_steps')

    def op_wait(self, s, op):
        w = P.Wait.__new__(P.Wait)
        self.one_wait(op, w, lambda: w.__init__(op['d']))
        for _ in range(op.get('again', 0)):
            if not self.viol:
                self.note('wait_again')
                self.one_wait(op, w, w.run)

    def one_wait(self, op, w, start):
        sim = self.sim
        task = sim.current
        e = dict(w=w, dur=int(op['d']), stop=None, stop_t=None, start=sim.now, task=task, op=op)
        self.waits[op['id']] = e
        blocked = sim.blocked
        task.watch = (sim.now + e['dur'], 0)
        busy = self.notes.get('busy_steps', 0)
        steps = sim.steps
        try:
            start()
        except TaskKilled:
            raise
        except Exception, x:
            self.bad('C16', 'wait-raised', 'Wait(%s) raised %s: %s', op['d'], type(x).__name__, x)
            return
        took = sim.now - e['start']
        late, task.watch = task.watch[1], None
        e['w'] = None
        e['end'] = sim.now
        self.note('waits')
        sim.rec('waited', op['id'], round(took, 6))
        if e['stop'] is None and took < e['dur']:
            self.bad('C16', 'wait-early', 'Wait(%s) returned after %.3f s', op['d'], took)
        elif sim.blocked - blocked > 0.3 and self.blocked_by is task:
            self.bad('C16', 'wait-blocks', 'Wait(%s) kept every other coroutine from running for %.2f s', op['d'], sim.blocked - blocked)
        elif e['stop'] is None and late > 3:
            self.bad('C16', 'wait-late', 'Wait(%s) returned after %.3f s, having run %d times after its time was up', op['d'], took, late)
        elif e['stop'] is None and took - e['dur'] > 2.0 + 60 * len(sim.tasks) * sim.step + sim.blocked - blocked:
            self.bad('C16', 'wait-late', 'Wait(%s) returned after %.3f s', op['d'], took)
        elif e['stop'] is not None and sim.now - e['stop_t'] > 2.0 + 60 * len(sim.tasks) * sim.step + sim.blocked - blocked:
            self.bad('C16', 'wait-stop', 'Wait(%s) went on for %.3f s after it was stopped', op['d'], sim.now - e['stop_t'])
        elif e['stop'] is not None and task.runs - e['stop'] > 3:
            self.bad('C16', 'wait-stop', 'Wait(%s) went on for %d turns after it was stopped', op['d'], task.runs - e['stop'])

    def op_waitstop(self, s, op):
        e = self.waits.get(op['id'])
        if e is None or e['w'] is None or not getattr(e['w'], 'enabled', True):
            return
        e['stop'] = e['task'].runs
        e['stop_t'] = self.sim.now
        self.note('wait_stops')
        e['w'].stop()

    # ---- bare dispatcher: the application is the pump
    def op_poll(self, s, op):
        for _ in range(op.get('n', 1)):
            if not s.sock.rx and not s.sock.rx_errors:
                return
            self.poll_one(s)

    def poll_one(self, s):
        buf, size = s.ud.udp_client.receive_packet(s.sock)
        try:
            s.ud.receive_check(s.ud.udp_client.get_sender(), buf, size)
        except TaskKilled:
            raise
        except HandlerError:
            pass
        except Exception, e:
            self.note('receive_check_raised')
            w = s.window
            if w is not None and w.get('dec') is not None:
                self.bad('C04 C05 C14 C15', 'receive-raised', 'receiving a well formed %s raised %s: %s', w['dec']['name'], type(e).__name__, e)
        self.close_delivery(s)
        s.window = None

    def op_round(self, s, op):
        r = self.open_round(s)
        s.ud.process_acks()
        self.close_round(s, r)

    # ---- model: what the client does on the wire -------------------------
    def session_at(self, addr):
        return self.by_sock.get(addr)

    def _tx(self, e):
        s = self.by_sock.get(e['sock'])
        if s is None:
            return
        data, dst = e['data'], e['dst']
        try:
            d = self.codec.decode(data)
            err = None
        except (C.Bad, C.Ambiguous), ex:
            d, err = None, str(ex)
        e['dec'] = d
        if d is None or d['name'] is None:
            self.bad('C05 C17', 'undecodable', 'datagram to %s is not a complete message (%s): %s',
                     self.net.name(dst), err or 'unknown message', hexs(data))
            return
        if d['extra'] and not (d['name'] == 'RegionHandshakeReply' and d['extra'] == '\0\0\0\0'):
            self.bad('C05', 'trailing', '%s to %s carries %d extra bytes', d['name'], self.net.name(dst), len(d['extra']))
            return
        if d['flags'] & C.ZERO or d['flags'] & 0x0f:
            self.bad('C05', 'flags', '%s sent with flags %02x', d['name'], d['flags'])
            return
        if self.flavors.get(d['name'], 'template') != 'template':
            self.bad('C13', 'banned-sent', 'HTTP-only message %s was sent over UDP to %s', d['name'], self.net.name(dst))
            return
        ids = list(d['acks'])
        if d['name'] == 'PacketAck':
            ids += [row['ID'] for row in d['content']['Packets']]
        for a in ids:
            if a not in s.may_ack.get(dst, ()):
                self.bad('C04 C15', 'bogus-ack', 'acknowledged %d to %s, which sent no reliable datagram with that number', a, self.net.name(dst))
                return
            o = s.owed.get(dst)
            if o:
                o.pop(a, None)
        if len(d['acks']):
            self.note('acks_appended')
        if len(ids) > 200:
            self.note('acks_batch>200')
        core_, _ = self.codec.split_acks(data)
        if d['flags'] & C.RESENT:
            self._tx_resend(s, e, d, core_)
        else:
            self._tx_new(s, e, d, core_)

    def _tx_resend(self, s, e, d, core_):
        dst = e['dst']
        who = '%s #%d to %s' % (d['name'], d['seq'], self.net.name(dst))
        r = s.msgs.get((dst, d['seq']))
        if r is None:
            self.bad('C02 C01 C15', 'resend-unknown', 'retransmission of %s, which was never sent', who)
            return
        r.attempts += 1
        if not r.reliable:
            self.bad('C02', 'resend-unreliable', 'retransmission of %s, which was not sent reliably', who)
        elif r.acked is not None:
            self.bad('C02 C03', 'resend-acked', 'retransmission of %s after it was acknowledged', who)
        elif not d['flags'] & C.RELIABLE:
            self.bad('C02', 'resend-flags', 'retransmission of %s without the reliable flag', who)
        elif core_[1:] != r.payload[1:]:
            self.bad('C02 C05', 'resend-content', 'retransmission of %s differs from what was sent: %s / %s', who, hexs(core_), hexs(r.payload))
        elif r.attempts > r.budget:
            self.bad('C02', 'resend-budget', '%s retransmitted %d times, budget %d', who, r.attempts, r.budget)
        else:
            self.note('resends')
        for rd in s.rounds_open:
            rd['got'][(dst, d['seq'])] = rd['got'].get((dst, d['seq']), 0) + 1
            if rd['got'][(dst, d['seq'])] > 1:
                self.bad('C02', 'resend-twice', '%s retransmitted twice in one round', who)

    def _tx_new(self, s, e, d, core_):
        dst = e['dst']
        exp = s.next_seq.get(dst, 1)
        seq = d['seq']
        if seq != exp:
            gap = seq - exp
            if gap < 0:
                self.bad('C01', 'seq-reuse', '%s to %s has number %d, expected %d', d['name'], self.net.name(dst), seq, exp)
                return
            if gap > s.refused.get(dst, 0):
                self.bad('C01', 'seq-gap', '%s to %s has number %d, expected %d', d['name'], self.net.name(dst), seq, exp)
                return
            s.refused[dst] -= gap
            self.note('seq_gap_refused')
        s.next_seq[dst] = seq + 1
        tid = self.sim.current.tid
        tok = K.token_of(self.codec, d['name'], d['content'])
        ent = s.in_direct.get(tid)
        rel = bool(d['flags'] & C.RELIABLE)
        if d['name'] == 'PacketAck' and not (ent is not None and ent['name'] == 'PacketAck'):
            if rel:
                self.bad('C05', 'flags', 'PacketAck sent reliably')
            ent = None
        else:
            if ent is None:
                ent = self._queue_sent(s, e, d, tok)
                if ent is None:
                    return
            else:
                ent['seen'] += 1
                if ent['seen'] > 1:
                    self.bad('C08 C17', 'sent-twice', '%s was sent twice', d['name'])
                    return
                if not ent['ok']:
                    self.bad('C17 C05', 'bad-sent', 'a message that cannot be serialised (%s) was sent: %s', ent.get('how'), hexs(core_))
                    return
            self.check_outgoing(s, ent)
            if ent['dst'] != dst:
                self.bad('C08 C15', 'wrong-dst', '%s was sent to %s instead of %s', d['name'], self.net.name(dst), self.net.name(ent['dst']))
                return
            diff = K.diff_wire(self.codec, ent['name'], d, ent['content'])
            if diff:
                self.bad('C05', 'content-out', '%s sent to %s: %s', ent['name'], self.net.name(dst), diff)
                return
            if rel != ent['rel']:
                self.bad('C05 C08 C02', 'reliable-flag', '%s was sent with reliable=%s, asked for %s', d['name'], rel, ent['rel'])
                return
        r = Rec()
        r.seq, r.dst, r.name, r.reliable = seq, dst, d['name'], rel
        r.budget = ent is not None and ent['budget'] or 1
        r.attempts, r.acked, r.maybe = 0, None, False
        r.first, r.payload, r.token = e, core_, tok
        r.born = self.sim.steps
        s.msgs[(dst, seq)] = r
        self.note('sent')
        if rel:
            self.note('reliable_sent')

    def _queue_sent(self, s, e, d, tok):
        """a new datagram that no direct send explains: must be the queue"""
        ent = s.cur_q
        if ent is not None:
            s.cur_q = None
            if ent['tok'] == tok and ent['name'] == d['name']:
                if not ent['ok']:
                    self.bad('C17 C05', 'bad-sent', 'a message that cannot be sent (%s) was sent: %s', ent.get('how'), d['name'])
                    return None
                ent['sent'] = self.sim.steps
                self.note('queue_sent')
                return ent
            if ent['ok']:
                self.bad('C08', 'queue-lost', '%s was taken from the queue but %s was sent', ent['name'], d['name'])
                return None
        q = s.queue
        while q:
            ent = q.pop(0)
            if ent['ok']:
                same = ent['tok'] == tok and ent['name'] == d['name']
                if same:
                    ent['sent'] = self.sim.steps
                    self.note('queue_sent')
                    return ent
                later = [x for x in q if x['ok'] and x['tok'] == tok and x['name'] == d['name']]
                if later:
                    self.bad('C08', 'queue-order', '%s was sent before %s, which is ahead of it in the queue', d['name'], ent['name'])
                else:
                    dup = tok is not None and tok in self.expected and 'sent' in self.expected[tok]
                    self.bad(dup and 'C08' or 'C08 C05', dup and 'queue-twice' or 'queue-content', '%s was sent %s; %s is next in the queue', d['name'], dup and 'a second time' or 'unexpectedly', ent['name'])
                return None
            if d['name'] == ent['name'] and tok is None:
                later = [x for x in q if x['ok'] and x['tok'] is None and x['name'] == d['name']]
                if not later:
                    self.bad('C17 C05', 'bad-sent', 'a message that cannot be serialised (%s) was sent: %s', ent.get('how'), d['name'])
                    return None
        self.bad('C08 C01 C09', 'unexpected-send', '%s was sent although the queue was empty', d['name'])
        return None

    # ---- model: what the client receives ----------------------------------
    def accepted(self, d):
        return d['name'] is not None and self.flavors.get(d['name'], 'template') == 'template'

    def _rx(self, e):
        s = self.by_sock.get(e['sock'])
        if s is None:
            return
        if s.stopped and s.kind == 'manager':
            s.final_windows += 1
            if s.final_windows > 1 or not s.started:
                self.bad('C09', 'rx-after-stop', 'the session took a datagram after it was stopped')
                return
        data, src = e['data'], e['src']
        s.last_rx = self.sim.now
        w = s.window = dict(e=e, dec=None, err=None, calls=[], n0=len(self.delivery_log), ntx=len(self.net.tx))
        try:
            w['dec'] = d = self.codec.decode(data)
        except C.Bad, ex:
            w['err'] = 'bad'
        except C.Ambiguous, ex:
            w['err'] = 'ambiguous'
        if len(data) >= 5 and ord(data[0]) & C.RELIABLE:
            s.may_ack.setdefault(src, set()).add(struct.unpack('>I', data[1:5])[0])
        if w['dec'] is not None:
            if d['flags'] & C.RELIABLE:
                s.owed.setdefault(src, {})[d['seq']] = e['i']
                self.note('reliable_received')
            if not self.accepted(d):
                self.note('http_only')
            ids = list(d['acks'])
            if d['name'] == 'PacketAck':
                ids += [row['ID'] for row in d['content']['Packets']]
            for a in ids:
                r = s.msgs.get((src, a))
                if r is None:
                    self.note('foreign_ack')
                elif not self.accepted(d):
                    r.maybe = True
                elif r.acked is None:
                    r.acked = self.sim.steps
                    self.note('acked')
                else:
                    self.note('dup_ack')
        elif w['err'] == 'ambiguous' or ord((data or '\0')[0]) & C.ACK:
            # it may or may not be taken for an acknowledgement
            for (dst, seq), r in s.msgs.items():
                if dst == src:
                    r.maybe = True
        d = w['dec']
        name = d and d['name'] or None
        w['subs'] = list(s.subs.get(name, [])) if d is not None and self.accepted(d) else []
        if s.cfg.get('settings', {}).get('HANDLE_PACKETS') is False:
            w['subs'] = []
        w['name'] = name
        w['changed'] = set()
        w['raised'] = False
        w['task'] = self.sim.current.tid
        s.dispatching.append(w)
        if s.kind == 'manager':
            w['round'] = self.open_round(s)
            w['queue0'] = list(s.queue)

    def delivered(self, s, sub, e):
        """a handler was called"""
        msg = e['msg']
        info = s.objects.get(id(msg))
        w = s.window
        if info is not None and info[0] is msg:
            e['kind'] = 'outgoing'
            self.delivered_outgoing(s, sub, e, info)
            return
        if e['name'] == 'PacketAck' and s.cfg.get('settings', {}).get('HANDLE_OUTGOING_PACKETS'):
            if w is None or w['name'] != 'PacketAck' or w['calls'] and w['calls'][0]['msg'] is not msg or not w['calls'] and sub not in w['subs']:
                # acknowledgements being sent
                e['kind'] = 'outgoing'
                if sub.raises():
                    # this batch is not sent
                    ids = [row[0][1] for row in e['snap'].get('Packets', [])]
                    for owed in s.owed.values():
                        if not [x for x in ids if x not in owed]:
                            for x in ids:
                                del owed[x]
                    self.note('ack_handler_raised')
                return
        if w is not None and e['tid'] == w['task']:
            e['kind'] = 'udp'
            e['src'] = self.net.name(w['e']['src'])
            w['calls'].append(e)
            if w['err'] == 'bad':
                self.bad('C06', 'partial', '%s was delivered from an incomplete datagram %s', e['name'], hexs(w['e']['data']))
            elif w['dec'] is not None:
                d = w['dec']
                if d['name'] is None:
                    self.bad('C06 C07', 'unknown-delivered', '%s was delivered from an unknown message', e['name'])
                elif not self.accepted(d):
                    self.bad('C13', 'banned-delivered', 'HTTP-only message %s was delivered from UDP', d['name'])
                elif e['name'] != d['name']:
                    self.bad('C07 C05', 'misdelivered', '%s was delivered as %s', d['name'], e['name'])
                elif sub.spec['name'] != e['name']:
                    self.bad('C07', 'wrong-handler', 'handler for %s got %s', sub.spec['name'], e['name'])
                else:
                    diff = K.diff_delivered(self.codec, d['name'], e['snap'], d['content'])
                    if diff:
                        self.bad('C05 C06', 'content-in', '%s delivered: %s', d['name'], diff)
            if sub.raises():
                w['raised'] = True
            return
        if s.eqsrv is not None:
            e['kind'] = 'eq'
            s.eqsrv.delivered(s, sub, e)
            return
        self.bad('C07', 'unexpected-delivery', '%s was delivered out of the blue', e['name'])

    def delivered_outgoing(self, s, sub, e, info):
        if not s.cfg.get('settings', {}).get('HANDLE_OUTGOING_PACKETS'):
            self.bad('C07', 'outgoing-delivered', 'outgoing %s was handed to subscribers although that is off', e['name'])
            return
        msg, ents, calls = info
        if sub.spec['name'] != e['name']:
            self.bad('C07', 'wrong-handler', 'handler for %s got %s', sub.spec['name'], e['name'])
            return
        ent = s.in_direct.get(e['tid'])
        if ent is None:
            ent = s.cur_q
            if ent is None or ent['msg'] is not msg or sub.sid in ent.get('ocalls', ()):
                # the next one has been taken from the queue
                if ent is not None and ent['ok']:
                    self.bad('C08 C17', 'queue-lost', '%s was taken from the queue but not sent', ent['name'])
                    return
                while s.queue:
                    ent = s.queue.pop(0)
                    if ent['msg'] is msg:
                        break
                    if ent['ok']:
                        self.bad('C08', 'queue-order', '%s was taken before %s, which is ahead of it in the queue', e['name'], ent['name'])
                        return
                else:
                    self.bad('C07 C08', 'outgoing-unexpected', 'outgoing %s was handed to subscribers although nothing was queued', e['name'])
                    return
                s.cur_q = ent
        if ent['msg'] is not msg:
            self.bad('C07', 'outgoing-other', 'outgoing %s was handed to subscribers while %s is sent', e['name'], ent['name'])
            return
        if sub.sid in ent.setdefault('ocalls', []):
            self.bad('C07', 'called-twice', 'outgoing %s was handed to handler %d twice', e['name'], sub.sid)
            return
        ent['ocalls'].append(sub.sid)
        self.note('delivered_outgoing')
        if ent['ok'] and ent['content'] is not None:
            pass
        if sub.raises():
            ent['ok'] = False
            ent['how'] = 'outgoing handler raises'
            self.refuse(s, ent['dst'])

    def check_outgoing(self, s, ent):
        """a message is put on the wire: its outgoing subscribers have seen it"""
        if not s.cfg.get('settings', {}).get('HANDLE_OUTGOING_PACKETS') or ent['name'] in s.dynamic:
            return
        want = [x.sid for x in s.subs.get(ent['name'], [])]
        if ent.get('ocalls', []) != want:
            self.bad('C07', 'outgoing-calls', 'outgoing %s: handlers called %s, subscribed are %s', ent['name'], ent.get('ocalls', []), want)

    def check_calls(self, tags, w, what):
        """handler calls of one dispatch against the subscriptions"""
        calls = [c['sid'] for c in w['calls']]
        subs = [x.sid for x in w['subs']]
        if len(set(calls)) != len(calls):
            self.bad(tags, 'called-twice', '%s: handlers called %s for subscriptions %s', what, calls, subs)
            return
        wrong = self.wrong_calls(calls, subs, w)
        if wrong is None:
            return
        # of equal subscriptions it cannot be told which one was called
        for other in self.readings(calls, w):
            if self.wrong_calls(other, subs, w) is None:
                return
        self.bad(tags, wrong[0], what + ': ' + wrong[1])

    def readings(self, calls, w):
        """the calls as calls of other, but equal subscriptions"""
        known = [self.sessions[c['s']].by_sid[c['sid']] for c in w['calls']]
        order = list(w['subs']) + [s.by_sid[x] for s in self.sessions for x in sorted(w['changed']) if x in s.by_sid and s.by_sid[x] not in w['subs']]
        out = [list(calls)]
        done = []
        for x in known:
            if len(x.fn.group) < 2 or [y for y in done if y.equals(x)]:
                continue
            done.append(x)
            at = [i for i, y in enumerate(known) if y.equals(x)]
            pool = [y.sid for y in order if y.equals(x)]
            new = []
            for some in choose(pool, len(at)):
                for r in out:
                    r = list(r)
                    for i, sid in zip(at, some):
                        r[i] = sid
                    new.append(r)
            out = (new or out)[:2000]
        return out

    def wrong_calls(self, calls, subs, w):
        opt = w['changed']
        order = [c for c in calls if c in subs]
        if order != [x for x in subs if x in calls]:
            return 'call-order', 'handlers called in order %s, subscribed %s' % (calls, subs)
        extra = [c for c in calls if c not in subs and c not in opt]
        if extra:
            return 'called-extra', 'handlers %s called, subscribed are %s' % (extra, subs)
        must = [x for x in subs if x not in opt]
        if w['raised']:
            # the one that raised ends this dispatch; those before it were called
            last = calls[-1]
            if last in subs:
                must = [x for x in must if subs.index(x) <= subs.index(last)]
            else:
                must = []
        missing = [x for x in must if x not in calls]
        if missing:
            return 'not-called', 'handlers %s of %s were not called (called: %s)' % (missing, subs, calls)

    def close_delivery(self, s):
        w = s.window
        if w is None:
            return
        if w in s.dispatching:
            s.dispatching.remove(w)
        if w['dec'] is None or w.get('closed'):
            return
        w['closed'] = True
        d = w['dec']
        self.check_calls('C07 C05 C06 C14 C15', w, 'received %s #%d from %s' % (d['name'], d['seq'], self.net.name(w['e']['src'])))
        if w['calls']:
            self.note('delivered_udp')

    # ---- rounds
    def open_round(self, s):
        need = {}
        for key, r in s.msgs.items():
            if r.reliable and r.acked is None and not r.maybe and r.attempts < r.budget and r.first['fin'] is not None:
                need[key] = r.attempts
        owed = {}
        for src, ids in s.owed.items():
            if ids:
                owed[src] = dict(ids)
        rd = dict(need=need, got={}, owed=owed, step=self.sim.steps)
        s.rounds_open.append(rd)
        return rd

    def close_round(self, s, rd):
        if rd not in s.rounds_open:
            return
        s.rounds_open.remove(rd)
        self.note('rounds')
        for key in rd['need']:
            r = s.msgs[key]
            if not rd['got'].get(key) and r.acked is None and not r.maybe:
                self.bad('C02 C03 C14 C15 C17', 'not-resent', '%s #%d to %s is unacknowledged (%d of %d retransmissions made) but was not retransmitted in this round',
                         r.name, r.seq, self.net.name(r.dst), r.attempts, r.budget)
                return
        for src, ids in rd['owed'].items():
            now = s.owed.get(src, {})
            left = [a for a in ids if a in now and now[a] == ids[a]]
            if left:
                self.bad('C04 C14 C15 C17 C13', 'not-acked', 'reliable datagrams %s from %s were not acknowledged', sorted(left)[:10], self.net.name(src))
                return
        if self.cfg.get('internal', 1):
            self.check_internal(s)

    def check_internal(self, s):
        """outstanding containers and counters the circuits expose"""
        cm = getattr(s.ud, 'circuit_manager', None)
        if cm is None:
            return
        peers = {}
        for (dst, seq), r in s.msgs.items():
            if r.reliable:
                peers.setdefault(dst, []).append(r)
        for dst, recs in peers.items():
            c = cm.get_circuit(P.Host(dst))
            if c is None:
                self.bad('C03 C15', 'no-circuit', 'no circuit for %s any more', self.net.name(dst))
                return
            un = getattr(c, 'unacked_packets', None)
            fin = getattr(c, 'final_retry_packets', None)
            if un is None or fin is None:
                return
            if [1 for r in recs if r.maybe]:
                continue
            out = set([r.seq for r in recs if r.acked is None])
            elig = set([r.seq for r in recs if r.acked is None and r.attempts < r.budget])
            have = set(un) | set(fin)
            if have - out:
                self.bad('C03 C17 C13', 'kept', 'messages %s to %s are still kept as outstanding, the outstanding ones are %s', sorted(have - out), self.net.name(dst), sorted(out))
                return
            if elig - set(un):
                self.bad('C03 C02', 'forgotten', 'messages %s to %s are no longer outstanding', sorted(elig - set(un)), self.net.name(dst))
                return
            cnt = getattr(c, 'unack_packet_count', None)
            if cnt is not None and cnt != len(elig):
                self.bad('C03', 'count', '%s outstanding messages reported for %s, %d are', cnt, self.net.name(dst), len(elig))
                return

    def _rx_wait(self, sock):
        """the pump is about to take the next datagram"""
        s = self.by_sock.get(sock.addr)
        if s is None or s.kind != 'manager':
            return
        w = s.window
        if w is not None:
            self.close_delivery(s)
            if not self.viol:
                self.close_round(s, w['round'])
            if not self.viol:
                left = [x for x in w['queue0'] if x in s.queue and x['ok']]
                if left:
                    self.bad('C08 C06 C17', 'queue-left', '%d messages enqueued before the datagram are still waiting (%s)', len(left), left[0]['name'])
            s.queue = [x for x in s.queue if x['ok'] or x not in w['queue0']]
            s.windows_done += 1
            s.window = None

    # ---- end of the run ----------------------------------------------------
    ALIVE = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18'

    def check_end(self):
        sim = self.sim
        if sim.aborted:
            self.bad(self.ALIVE, 'livelock', 'no end after %d scheduling steps', sim.steps)
            return
        for t, e in sim.failed_tasks:
            if t.tid in self.actor_tids:
                self.bad(env.of_library(t.where) and self.ALIVE or '', 'harness', 'application coroutine failed: %s: %s', type(e).__name__, e)
            elif [s for s in self.sessions if t in s.tasks]:
                self.bad(self.ALIVE, 'session-died', 'session coroutine %s ended with %s: %s', t.name, type(e).__name__, e)
            return
        for s in self.sessions:
            if s.kind == 'manager' and s.started:
                if s.stopped:
                    self.check_stopped(s)
                else:
                    self.check_alive(s)

        for i in sorted(self.waits):
            e = self.waits[i]
            if e['w'] is None:
                continue
            if e['stop'] is not None and sim.now - e['stop_t'] > self.GRACE:
                self.bad('C16', 'wait-stop', 'Wait(%s) did not return after it was stopped', e['op']['d'])
            elif e['stop'] is None and sim.now - e['start'] > e['dur'] + self.GRACE:
                self.bad('C16', 'wait-never', 'Wait(%s) has not returned after %.1f s', e['op']['d'], sim.now - e['start'])
        for tid, call in sorted(self.cap_calls.items()):
            if call['conns'] and call['conns'][-1].finished and sim.now - call['conns'][-1].e['last'] > self.GRACE:
                self.bad('C12', 'cap-hung', '%s of %s has not returned', call['op']['m'], call['url'])

    GRACE = 8.0

    def check_alive(self, s):
        sim = self.sim
        if not s.sock.waiters and sim.now - s.last_rx > self.GRACE and sim.now - self.t_last_call(s) > self.GRACE:
            self.bad(self.ALIVE, 'session-deaf', 'the session does not take datagrams any more (%d are waiting)', len(s.sock.rx))
            return
        srv = s.eqsrv
        if srv is None or not s.settings_obj.ENABLE_REGION_EVENT_QUEUE:
            return
        mine = [e for e in self.http.requests if e['server'] == srv.name]
        last = max([e['last'] for e in mine] + [sim.t0 + s.start_at])
        if not self.http.inflight_of(srv) and sim.now - last > srv.interval + self.GRACE and sim.now - self.t_last_call(s) > self.GRACE:
            self.bad('C10 C11', 'eq-stopped', 'no poll since %.1f s although the session is running', sim.now - last)
            return
        if sim.now - last > srv.interval + 1 and srv.dw is not None and sim.now - self.t_last_call(s) > self.GRACE:
            srv.finish_batch()
        if self.cfg.get('eq_complete') and not self.viol:
            missing = [ev for ev in srv.events if ev['batch'] is None or ev['batch'] is srv.batch]
            if missing:
                self.bad('C10', 'eq-missing', '%d events, from number %d (%s) on, were not delivered and acknowledged although requests succeed again', len(missing), missing[0]['i'], missing[0]['name'])

    def t_last_call(self, s):
        return max([e['t'] for e in self.delivery_log[-40:]] or [0])

    def check_stopped(self, s):
        """after stop, one more datagram and the end of the pending request"""
        sim = self.sim
        if sim.now - s.stop_time < self.cfg.get('stop_grace', 1e9):
            return
        alive = [t for t in s.tasks if not t.done]
        if alive:
            self.bad('C09', 'not-stopped', '%d session coroutines are still alive %.1f s after stop', len(alive), sim.now - s.stop_time)
            return
        if s.window is not None:
            self.close_delivery(s)
            if not self.viol:
                self.close_round(s, s.window['round'])
            left = [x for x in s.queue if x['ok'] and not x['stopped']]
            if left and not self.viol:
                self.bad('C08 C09', 'queue-left', '%d messages enqueued before the stop were not sent with the last datagram taken (%s)', len(left), left[0]['name'])
        srv = s.eqsrv
        if srv is not None and not self.viol:
            srv.finish_batch()
            if srv.received is not None and not srv.finals and not self.viol:
                tail = [e for e in self.http.requests if e['server'] == srv.name][-1]
                if not (tail['outcome'] == 'refused' and tail['t'] >= s.stop_time):
                    self.bad('C09 C11', 'eq-no-final', 'batch %s was received but no final request was made after stop', srv.received['id'])

    # ---- what can be observed from outside -----------------------------------
    def observe(self, times=False):
        """the externally visible behaviour, per session"""
        out = {}
        for s in self.sessions:
            tx, dl = {}, {}
            for e in self.net.tx:
                if e['sock'] == s.addr:
                    tx.setdefault(self.net.name(e['dst']), []).append((times and round(e['t'], 6), e['data']))
            for e in self.delivery_log:
                if e['s'] == s.idx:
                    dl.setdefault(e['sid'], []).append((times and round(e['t'], 6), e['name'], K_digest(e['snap'])))
            rq = []
            if s.eqsrv is not None:
                rq = [(times and round(e['t'], 6), e['method'], e['path'], e['body'], e['outcome']) for e in self.http.requests if e['server'] == s.eqsrv.name]
            out[s.idx] = dict(tx=tx, dl=dl, rq=rq)
            if times:
                out[s.idx].update(results=s.results, counts=[getattr(getattr(s, 'ud', None), k, None) for k in ('packets_in', 'packets_out')])
        if self.cap_servers:
            out['caps'] = dict(results=dict(self.cap_results), rq=[(e['method'], e['path'], e['body'], e['outcome']) for e in self.http.requests if str(e['server']).startswith('cap')])
        return out

    def trace_hash(self):
        h = 0
        for e in self.sim.log:
            h = zlib.crc32(repr(e), h)
        return h & 0xffffffff


_codecs = {}


def codec_of(text):
    if text not in _codecs:
        if len(_codecs) > 8:
            _codecs.clear()
        _codecs[text] = C.Codec(text)
    return _codecs[text]


def flavors_of(text):
    key = ('xml', text)
    if key not in _codecs:
        if len(_codecs) > 8:
            _codecs.clear()
        _codecs[key] = env.flavors(text)
    return _codecs[key]


def K_digest(snap):
    h = 0
    for b in sorted(snap):
        h = zlib.crc32('%s %d' % (b, len(snap[b])), h)
        for row in snap[b]:
            for n, v in row:
                h = zlib.crc32('%s %s' % (n, show(v)), h)
    return h & 0xffffffff


def show(v):
    """a value as text, without object addresses"""
    if hasattr(v, 'X'):
        return repr([getattr(v, a) for a in 'XYZW' if hasattr(v, a)])
    if isinstance(v, dict):
        return repr([(k, show(v[k])) for k in sorted(v)])
    if isinstance(v, (list, tuple)):
        return repr([show(x) for x in v])
    if isinstance(v, (basestring, int, long, float)) or v is None:
        return repr(v)
    if type(v) is object:
        return 'object'
    return str(v)


def hexs(data, n=48):
    return ' '.join(['%02x' % ord(c) for c in data[:n]]) + (len(data) > n and '...' or '')


def mangle(data, how, x, y):
    n = len(data)
    if how == 'cut':
        return data[:x % n]
    if how == 'flip':
        p = x % n
        return data[:p] + chr(ord(data[p]) ^ (1 << (y % 8))) + data[p + 1:]
    if how == 'set':
        p = x % n
        return data[:p] + chr(y % 256) + data[p + 1:]
    if how == 'pad':
        return data + chr(y % 256) * (1 + x % 9)
    if how == 'drop':
        p = 6 + x % max(1, n - 6)
        return data[:p] + data[p + 1 + y % 4:]
    if how == 'acks':
        return chr(ord(data[0]) | C.ACK) + data[1:] + chr(y % 256)
    if how == 'zero':
        return chr(ord(data[0]) | C.ZERO) + data[1:]
    return ''
