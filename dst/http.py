"""Simulated TCP and HTTP servers: the library's own urllib2/httplib code runs
on top of this; connections, segments, resets and stalls are decided here."""
import errno
import socket as _socket
import uuid as _uuid
import datetime
import base64

from core import CTX, RNG

REASONS = {200: 'OK', 201: 'Created', 202: 'Accepted', 203: 'Non-Authoritative', 206: 'Partial Content', 300: 'Multiple Choices',
           400: 'Bad Request', 401: 'Unauthorized', 403: 'Forbidden', 404: 'Not Found', 405: 'Method Not Allowed',
           408: 'Request Timeout', 409: 'Conflict', 410: 'Gone', 412: 'Precondition Failed', 415: 'Unsupported Media Type', 418: 'Teapot', 429: 'Too Many Requests',
           499: 'Client Closed', 500: 'Internal Server Error', 501: 'Not Implemented', 502: 'Bad Gateway', 503: 'Service Unavailable',
           504: 'Gateway Timeout', 505: 'Version'}


class SimTCP(object):
    """client end of a connection, as returned by socket.create_connection"""

    def __init__(self, http, server, owner, entry):
        self.http, self.sim, self.server, self.owner, self.e = http, http.sim, server, owner, entry
        self.out = ''
        self.buf = ''
        self.eof = False
        self.err = None
        self.waiter = None
        self.sent = False
        self.closed = False
        self.finished = False
        self.got_header = False
        self.consumed = 0
        self.fed = 0

    # ---- socket interface
    def setsockopt(self, *a):
        pass

    def settimeout(self, t):
        pass

    def gettimeout(self):
        return None

    def fileno(self):
        return self

    def shutdown(self, *a):
        pass

    def close(self):
        self.closed = True

    def makefile(self, mode='rb', bufsize=-1):
        return SimFile(self)

    def recv(self, n, *a):
        return self.read_some(n)

    def send(self, data, *a):
        self.sendall(data)
        return len(data)

    def sendall(self, data, *a):
        self.touch()
        self.sim.yield_()
        self.touch()
        if self.err:
            self.finish()
            raise _socket.error(self.err, 'simulated connection reset')
        self.out += str(data)
        self.http.progress(self)

    # ---- client side reading
    def touch(self):
        self.e['last'] = self.sim.now

    def finish(self):
        self.finished = True
        self.touch()

    def fill(self):
        """wait for more bytes; False at end of file"""
        if self.err:
            self.finish()
            raise _socket.error(self.err, 'simulated connection reset')
        if self.eof:
            self.finish()
            return False
        self.waiter = self.sim.current
        self.sim.wait()
        self.waiter = None
        self.touch()
        return True

    def take(self, n):
        r, self.buf = self.buf[:n], self.buf[n:]
        self.consumed += len(r)
        if self.consumed == self.fed and self.eof:
            self.finish()
        self.http.consumed(self)
        return r

    def read_some(self, n):
        while not self.buf:
            if not self.fill():
                return ''
        return self.take(n)

    def read(self, n=-1):
        while n is None or n < 0 or len(self.buf) < n:
            if not self.fill():
                break
        return self.take(n is None and len(self.buf) or n < 0 and len(self.buf) or n)

    def readline(self, limit=-1):
        while '\n' not in self.buf:
            if limit >= 0 and len(self.buf) >= limit:
                break
            if not self.fill():
                break
        i = self.buf.find('\n')
        n = i < 0 and len(self.buf) or i + 1
        if limit >= 0:
            n = min(n, limit)
        return self.take(n)

    # ---- simulator side
    def feed(self, data):
        if self.closed and not data:
            return
        self.buf += data
        self.fed += len(data)
        self._wake()

    def end(self):
        self.eof = True
        self._wake()

    def reset(self):
        self.err = errno.ECONNRESET
        self._wake()

    def _wake(self):
        if self.waiter is not None:
            self.sim.wake(self.waiter)


class SimFile(object):
    def __init__(self, conn):
        self.conn = conn
        self.closed = False

    def read(self, n=-1):
        return self.conn.read(n)

    def readline(self, limit=-1):
        return self.conn.readline(limit)

    def recv(self, n):
        return self.conn.read_some(n)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def fileno(self):
        return self.conn

    def __iter__(self):
        while True:
            line = self.readline()
            if not line:
                return
            yield line


DEFAULTS = dict(refused=0.0, reset_req=0.0, reset_resp=0.0, trunc=0.0, err_before=0.0, err_after=0.0,
                garbage_before=0.0, garbage_after=0.0, slow=0.0, seg=0.0, lat=(0.03, 0.1, 0.5, 2.0, 7.0))


class Http(object):

    def __init__(self, sim, cfg=None):
        self.sim = sim
        self.cfg = dict(DEFAULTS)
        self.cfg.update(cfg or {})
        self.requests = []
        self.conns = []
        self.servers = {}
        self.next_host = 0
        self.quiet = False

    def add(self, server, path):
        self.next_host += 1
        addr = ('10.1.0.%d' % self.next_host, 8000 + self.next_host)
        self.servers[addr] = server
        server.addr = addr
        server.path = path
        server.url = 'http://%s:%d%s' % (addr[0], addr[1], path)

    def inflight_of(self, server):
        return [c for c in self.conns if c.server is server and not c.finished]

    # ---- client side
    def connect(self, address, timeout=None):
        sim = self.sim
        server = self.servers.get((address[0], int(address[1])))
        e = dict(i=len(self.requests), t=sim.now, last=sim.now, server=server and server.name, task=sim.current.tid,
                 step=sim.steps, method=None, path=None, headers=None, body=None, arrived=None, outcome=None)
        self.requests.append(e)
        for c in self.conns:
            if c.owner is sim.current:
                c.finished = True        # it went on to something else
        if server is None:
            sim.yield_()
            e['outcome'] = 'refused'
            raise _socket.error(errno.ECONNREFUSED, 'no such server')
        conn = SimTCP(self, server, sim.current, e)
        server.on_connect(conn)
        self.conns.append(conn)
        sim.yield_()
        e['last'] = sim.now
        if self.fault(server, 'refused') or server.down:
            e['outcome'] = 'refused'
            conn.finished = True
            sim.stat('fault.http_refused')
            sim.rec('http', server.name, 'refused')
            raise _socket.error(errno.ECONNREFUSED, 'simulated refused connection')
        return conn

    def fault(self, server, kind):
        if self.quiet:
            return False
        return self.sim.choices.chance(kind + ':' + server.name, self.cfg[kind])

    def progress(self, conn):
        """bytes were sent; is the request complete?"""
        if conn.sent:
            return
        i = conn.out.find('\r\n\r\n')
        if i < 0:
            return
        lines = conn.out[:i].split('\r\n')
        headers = {}
        for line in lines[1:]:
            k, v = line.split(':', 1)
            headers[k.strip().lower()] = v.strip()
        n = int(headers.get('content-length', '0'))
        if len(conn.out) < i + 4 + n:
            return
        conn.sent = True
        e = conn.e
        e['method'], e['path'] = lines[0].split(' ')[:2]
        e['headers'], e['body'] = headers, conn.out[i + 4:i + 4 + n]
        e['surplus'] = conn.out[i + 4 + n:]
        srv, sim = conn.server, self.sim
        sim.rec('http', srv.name, e['method'], e['path'], e['body'])
        srv.on_request(conn)
        if self.fault(srv, 'reset_req'):
            e['outcome'] = 'reset_req'
            sim.stat('fault.http_reset_before_processing')
            sim.after(0.05, conn.reset)
            return
        d = 0.03
        if self.fault(srv, 'slow'):
            d = sim.choices.pick('slowd:' + srv.name, self.cfg['lat'])
            sim.stat('fault.http_delay')
        sim.after(d, self._arrive, conn)

    def _arrive(self, conn):
        e, srv = conn.e, conn.server
        if conn.err:
            return                       # lost with its connection
        e['arrived'] = self.sim.now
        if self.fault(srv, 'err_before'):
            st = self.sim.choices.pick('errs:' + srv.name, (500, 502, 503, 504, 404, 499))
            self.sim.stat('fault.http_error_before_processing')
            self.respond(conn, st, 'text/html', '<html>error %d</html>' % st, outcome='error')
            return
        if self.fault(srv, 'garbage_before'):
            self.sim.stat('fault.http_garbage_before_processing')
            self.garbage(conn)
            return
        srv.handle(conn)

    def garbage(self, conn):
        k = self.sim.choices.draw('gbk:' + conn.server.name, 10)
        if conn.server.unusable:
            # nothing that happens to be LLSD
            self.respond(conn, 200, 'application/llsd+xml', conn.server.unusable[k % len(conn.server.unusable)], outcome='garbage')
            return
        ct = 'application/llsd+xml'
        body = ['', 'Bad Gateway', '<html><body>oops</body></html>', '<?xml version="1.0" ?><llsd></llsd>',
                '<?xml version="1.0" ?><llsd><map><key>id</key></map></llsd>', '<?xml version="1.0" ?><llsd><string>proxy</string></llsd>',
                '<?xml version="1.0" ?><llsd><array><integer>1</integer></array></llsd>', '<?xml version="1.0" ?><llsd><map><key>foo</key><integer>4</integer></map></llsd>',
                '<?xml version="1.0" ?><llsd><undef /></llsd>', 'hello'][k]
        if k == 1:
            ct = 'text/plain'
        if k == 9:
            ct = 'text/html; charset=utf-8'
        self.respond(conn, 200, ct, body, outcome='garbage')

    def answer(self, conn, status, ctype, body, outcome, extra=None):
        """what the server wants to say, subject to faults"""
        srv, sim = conn.server, self.sim
        if self.fault(srv, 'reset_resp'):
            conn.e['outcome'] = 'reset_resp'
            sim.stat('fault.http_reset_after_processing')
            sim.after(0.05, conn.reset)
        elif self.fault(srv, 'err_after'):
            st = sim.choices.pick('errs:' + srv.name, (502, 500, 504, 404))
            sim.stat('fault.http_error_after_processing')
            self.respond(conn, st, 'text/html', 'lost', outcome='error')
        elif self.fault(srv, 'garbage_after'):
            sim.stat('fault.http_garbage_after_processing')
            self.garbage(conn)
        else:
            self.respond(conn, status, ctype, body, outcome, extra)

    def respond(self, conn, status, ctype, body, outcome, extra=None, reason=None, framing=None):
        sim, srv, ch = self.sim, conn.server, self.sim.choices
        e = conn.e
        if framing is None:
            framing = ch.draw('frame:' + srv.name, 3)
        head = 'HTTP/1.1 %d %s\r\n' % (status, reason or REASONS.get(status, 'Status'))
        if ctype is not None:
            head += 'Content-Type: %s\r\n' % ctype
        for k, v in extra or ():
            head += '%s: %s\r\n' % (k, v)
        if status in (204, 304):
            body = ''
            framing = 0
        if framing == 0:
            payload = body
            head += 'Content-Length: %d\r\n' % len(body)
        elif framing == 1:
            payload = body
        else:
            head += 'Transfer-Encoding: chunked\r\n'
            payload = ''
            rest = body
            while rest:
                n = 1 + ch.draw('chunk:' + srv.name, 400)
                payload += '%x\r\n%s\r\n' % (len(rest[:n]), rest[:n])
                rest = rest[n:]
            payload += '0\r\n\r\n'
        head += 'Connection: close\r\n\r\n'
        data = head + payload
        e['status'], e['outcome'], e['framing'] = status, outcome, framing
        e['answer'] = body
        cut = None
        if self.fault(srv, 'trunc'):
            # somewhere before the end of the document
            core_ = len(payload.rstrip())
            if framing == 2:
                core_ -= 12
            n = len(head) + max(0, core_ - 8)
            where = ch.draw('truncw:' + srv.name, 4)
            if where == 1:
                n = len(head)
            cut = ch.draw('truncn:' + srv.name, max(1, n))
            if where == 2:
                cut = min(n, len(head) + cut % max(1, n - len(head) + 1))
            data = data[:cut]
            e['outcome'] = 'truncated'
            sim.stat('fault.http_truncated')
        e['total'] = len(data)
        t = 0.03
        segs = [data]
        if self.fault(srv, 'seg') and len(data) > 1:
            sim.stat('fault.http_segmented')
            segs = []
            while data and len(segs) < 6:
                n = 1 + ch.draw('segn:' + srv.name, len(data))
                segs.append(data[:n])
                data = data[n:]
            if data:
                segs.append(data)
        for s in segs:
            if s:
                sim.after(t, conn.feed, s)
            t += len(segs) > 1 and ch.pick('segd:' + srv.name, (0.0, 0.1, 1.5)) or 0.0
        if cut is not None and ch.draw('trunce:' + srv.name, 2):
            sim.after(t, conn.reset)
        else:
            sim.after(t, conn.end)

    def consumed(self, conn):
        """the client read something"""
        e = conn.e
        if e.get('total') is not None and not e.get('read') and conn.consumed >= e['total'] - (e.get('framing') == 2 and 2 or 0):
            e['read'] = self.sim.now
            conn.finished = True
            conn.server.on_read(conn)


class Server(object):
    down = False
    unusable = None

    def on_connect(self, conn):
        pass

    def on_request(self, conn):
        pass

    def on_read(self, conn):
        pass


# ---- LLSD ------------------------------------------------------------------

class Uri(unicode):
    pass


class Binary(str):
    pass


def esc(s):
    return s.replace(u'&', u'&amp;').replace(u'<', u'&lt;').replace(u'>', u'&gt;')


def fmt(x):
    """LLSD as XML (unicode)"""
    if x is None:
        return u'<undef />'
    if x is True or x is False:
        return x and u'<boolean>true</boolean>' or u'<boolean>false</boolean>'
    if isinstance(x, (int, long)):
        return u'<integer>%d</integer>' % x
    if isinstance(x, float):
        return u'<real>%s</real>' % repr(x)
    if isinstance(x, Uri):
        return u'<uri>%s</uri>' % esc(x)
    if isinstance(x, Binary):
        return u'<binary encoding="base64">%s</binary>' % base64.b64encode(str(x)).decode('ascii')
    if isinstance(x, _uuid.UUID):
        return u'<uuid>%s</uuid>' % x
    if isinstance(x, datetime.datetime):
        return u'<date>%s</date>' % x.strftime('%Y-%m-%dT%H:%M:%SZ')
    if isinstance(x, str):
        x = x.decode('utf-8')
    if isinstance(x, unicode):
        return u'<string>%s</string>' % esc(x)
    if isinstance(x, (list, tuple)):
        return u'<array>%s</array>' % u''.join([fmt(y) for y in x])
    return u'<map>%s</map>' % u''.join([u'<key>%s</key>%s' % (esc(k), fmt(x[k])) for k in sorted(x)])


def document(x):
    return (u'<?xml version="1.0" ?><llsd>%s</llsd>' % fmt(x)).encode('utf-8')


STR = [u'', u'a', u'hello world', u'<&>', u'caf\xe9', u'\u65e5\u672c', u' lead', u'x' * 300, u'0', u"q'\"", u'line\nline', u'%d %s']


def gen(rng, depth=2):
    k = rng.below(depth > 0 and 13 or 9)
    if k == 0:
        return rng.choice([0, 1, -1, 2147483647, -2147483648, rng.randint(-10 ** 6, 10 ** 6)])
    if k == 1:
        return rng.choice([0.0, 1.5, -2.25, 1e300, rng.uniform(-1e6, 1e6)])
    if k == 2 or k == 3:
        return rng.choice(STR)
    if k == 4:
        return _uuid.UUID(int=rng.bits(128))
    if k == 5:
        return rng.below(2) == 1
    if k == 6:
        return None
    if k == 7:
        return Binary(''.join([chr(rng.below(256)) for _ in range(rng.choice([0, 1, 4, 16, 100]))]))
    if k == 8:
        return datetime.datetime(2000 + rng.below(30), 1 + rng.below(12), 1 + rng.below(28), rng.below(24), rng.below(60), rng.below(60))
    if k <= 10:
        return [gen(rng, depth - 1) for _ in range(rng.below(5))]
    return dict((u'k%d' % i, gen(rng, depth - 1)) for i in range(rng.below(5)))


def same(got, exp):
    """does parsed LLSD equal what was sent?"""
    if exp is None:
        return got is None
    if exp is True or exp is False:
        return got is exp
    if isinstance(exp, (int, long)):
        return isinstance(got, (int, long)) and not isinstance(got, bool) and got == exp
    if isinstance(exp, float):
        return isinstance(got, float) and got == exp
    if isinstance(exp, Binary):
        return isinstance(got, str) and str(got) == str(exp)
    if isinstance(exp, _uuid.UUID):
        return str(got) == str(exp) and not isinstance(got, basestring)
    if isinstance(exp, datetime.datetime):
        return got == exp
    if isinstance(exp, basestring):
        return isinstance(got, basestring) and got == exp
    if isinstance(exp, (list, tuple)):
        return isinstance(got, list) and len(got) == len(exp) and not [1 for a, b in zip(got, exp) if not same(a, b)]
    return isinstance(got, dict) and sorted(got) == sorted(exp) and not [1 for k in exp if not same(got[k], exp[k])]


# ---- the event queue server -------------------------------------------------

NAMES = [('EstablishAgentCommunication', None), ('ChatterBoxInvitation', None), ('ParcelProperties', 'T'), ('TeleportFinish', 'T'),
         ('EnableSimulator', 'T'), ('CrossedRegion', 'T'), ('AgentGroupDataUpdate', 'T'), ('OpenCircuit', 'T'), ('ScriptRunningReply', 'T'),
         ('ChatFromSimulator', 'T'), ('UnheardOfEvent', None), ('KillObject', 'T'), ('OnlineNotification', 'T'), ('CoarseLocationUpdate', 'T')]
TEMPLATE_EVENTS = [n for n, t in NAMES if t]


def event_body(name, cs, codec):
    """(body as sent, expected blocks) of an event"""
    rng = RNG(cs)
    m = codec.msgs.get(name)
    if cs % 17 == 3:
        # nothing in it
        return {}, m is None and {'Message_Data': [{}]} or {}
    if m is None:
        body = dict((u'f%d' % i, gen(rng, 2)) for i in range(1 + rng.below(4)))
        body[u'Token'] = cs & 0x7fffffff
        return body, {'Message_Data': [body]}
    body = {}
    for b in m.blocks:
        if b.kind == 'Variable' and rng.below(4) == 0 and b is not m.blocks[0]:
            continue
        n = b.kind == 'Single' and 1 or rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 40])
        rows = []
        for _ in range(n):
            row = {}
            for v in b.vars:
                if cs % 5 == 1 and rng.below(6) == 0:
                    row[v.name] = None
                elif v.type in ('U8', 'U16', 'S8', 'S16', 'S32', 'IPPORT'):
                    row[v.name] = rng.below(100)
                elif v.type in ('F32', 'F64'):
                    row[v.name] = rng.uniform(-100, 100)
                elif v.type == 'BOOL':
                    row[v.name] = rng.below(2) == 1
                elif v.type == 'LLUUID':
                    row[v.name] = _uuid.UUID(int=rng.bits(128))
                elif v.type in ('LLVector3', 'LLVector3d'):
                    row[v.name] = [rng.uniform(-100, 100) for _ in range(3)]
                elif v.type == 'Variable' and rng.below(2):
                    row[v.name] = rng.choice(STR)
                else:
                    row[v.name] = Binary(''.join([chr(rng.below(256)) for _ in range(4)]))
            rows.append(row)
        body[b.name] = rows
    if rng.below(4) == 0:
        body[u'Extra'] = [{u'Token': cs & 0x7fffffff}]
    return body, dict((b, rows) for b, rows in body.items() if rows)


class EQServer(Server):
    """the event queue of a region: batches with increasing ids, each resent
    until acknowledged; polls are held until there is something to say"""

    def __init__(self, http, cfg, name):
        self.http, self.sim, self.cfg, self.name = http, http.sim, dict(cfg), name
        http.add(self, '/cap/%s/%s' % (name, cfg.get('path', 'EventQueueGet')))
        self.events = []              # every event ever queued
        self.first_unsent = 0
        self.next_id = cfg.get('first_id', 1)
        self.batch = None             # unacknowledged batch
        self.batches = {}
        self.held = None
        self.polls = 0
        self.hold_no = 0
        self.done_seen = False
        self.received = None          # last batch completely read by the client
        self.interval = cfg.get('interval', 1)
        self.last_delivered = -1
        self.dw = None                # dispatch record of the batch being handled
        self.finals = 0
        self.eq_tid = None

    def bad(self, tags, cls, msg, *args):
        self.world.bad(tags, cls, msg, *args)

    def add_event(self, op):
        body, blocks = event_body(op['name'], op['cs'], self.world.base_codec)
        ev = dict(i=len(self.events), name=op['name'], body=body, blocks=blocks, calls=[], batch=None)
        self.events.append(ev)
        self.sim.rec('event', self.name, ev['i'], ev['name'])
        self.flush()

    # ---- client visible behaviour: checks at request time
    def on_connect(self, conn):
        sim, e = self.sim, conn.e
        s = self.session
        if self.eq_tid is None:
            self.eq_tid = sim.current.tid
        others = [c for c in self.http.inflight_of(self) if c.owner is not conn.owner]
        if others:
            self.bad('C11', 'eq-parallel', 'a poll was started while another one is outstanding')
            return
        if self.finals:
            self.bad('C09 C11', 'eq-after-final', 'a request was made after the final one')
            return
        prev = [x for x in self.http.requests[:-1] if x['server'] == self.name]
        self.finish_batch()
        if s.stopped:
            # one poll may have been about to start when stop was called, then the final one
            s.eq_after_stop += 1
            if s.eq_after_stop > 2:
                self.bad('C09 C11', 'eq-polls-after-stop', '%d requests were started after stop', s.eq_after_stop)
                return
        conn.gap = sim.now - prev[-1]['last'] if prev else 1e9

    def on_request(self, conn):
        from llbase import llsd
        e = conn.e
        s = self.session
        self.polls += 1
        w = self.world
        w.note('eq_polls')
        if e['method'] != 'POST' or e['path'] != self.path:
            self.bad('C11 C12', 'eq-request', 'the poll is a %s of %s', e['method'], e['path'])
            return
        try:
            data = llsd.parse(e['body'])
        except Exception, x:
            self.bad('C11 C12', 'eq-body', 'the poll carries %r', e['body'])
            return
        e['data'] = data
        if not isinstance(data, dict) or [k for k in data if k not in ('ack', 'done')]:
            self.bad('C11', 'eq-body', 'the poll carries %r', data)
            return
        exp = self.received and self.received['id']
        has = data.get('ack')
        if exp is None and 'ack' in data:
            self.bad('C11', 'eq-ack-early', 'the poll acknowledges %r before any batch was received', has)
            return
        if exp is not None and has != exp:
            self.bad('C11 C10', 'eq-ack-wrong', 'the poll acknowledges %r, the last batch received is %r', has, exp)
            return
        if 'done' in data:
            if data['done'] is not True:
                self.bad('C11', 'eq-body', 'the poll carries %r', data)
            if not s.stopped:
                self.bad('C11 C09 C10', 'eq-done-early', 'done was sent although the session was not stopped')
                return
            if exp is None:
                self.bad('C11', 'eq-done-nothing', 'done was sent although no batch was received')
                return
            self.finals += 1
            w.note('eq_finals')
        else:
            if s.stopped and s.eq_after_stop > 1:
                self.bad('C09 C11', 'eq-polls-after-stop', 'a second poll was started after stop')
                return
            if conn.gap < self.interval - 1e-6:
                self.bad('C11', 'eq-pacing', 'a poll started %.4f s after the end of the previous one, interval %s', conn.gap, self.interval)
                return

    # ---- the server's logic
    def handle(self, conn):
        data = conn.e.get('data')
        if data is None:
            return
        ack = data.get('ack')
        if self.held is not None and not self.held[0].finished:
            self.held = None
        if self.batch is not None and ack == self.batch['id']:
            self.batch = None
            self.world.note('eq_acked')
        if data.get('done'):
            self.done_seen = True
            k = self.cfg.get('final', 0)
            if k == 0:
                self.http.answer(conn, 200, self.ctype(), document({}), 'final')
            elif k == 1:
                self.http.answer(conn, 200, self.ctype(), document(None), 'final')
            elif k == 2:
                self.http.respond(conn, 404, 'text/plain', 'gone', 'final')
            elif k == 3:
                conn.e['outcome'] = 'reset_resp'
                self.sim.after(0.05, conn.reset)
            else:
                self.sim.after(20.0, self.http.respond, conn, 502, 'text/html', 'late', 'final')
            return
        self.hold_no += 1
        self.held = (conn, self.hold_no)
        self.sim.after(self.cfg.get('hold', 10.0), self._expire, self.hold_no)
        self.flush()

    def ctype(self):
        return self.cfg.get('ctype', 'application/llsd+xml')

    def _expire(self, no):
        if self.held is None or self.held[1] != no:
            return
        conn = self.held[0]
        self.held = None
        k = self.cfg.get('idle', 0)
        self.sim.stat('eq.idle_timeout')
        if k == 0:
            self.http.respond(conn, 502, 'text/html; charset=utf-8', '<html>no events</html>', 'error')
        elif k == 1:
            conn.e['outcome'] = 'closed'
            conn.end()
        elif k == 2:
            self.http.respond(conn, 499, None, '', 'error')
        else:
            self.make_batch([])
            self.reply(conn)

    def make_batch(self, events):
        b = self.batch = dict(id=self.next_id, events=events, sent=0)
        step = self.cfg.get('id_step', 1)
        if step == 'random':
            # ids without any order
            self.next_id = (self.next_id * 1103515245 + 12345) % 0x7fffffff
        else:
            self.next_id += step
        self.batches[b['id']] = b
        for ev in events:
            ev['batch'] = b
        return b

    def flush(self):
        if self.held is None:
            return
        if self.batch is None:
            n = len(self.events) - self.first_unsent
            if n == 0:
                return
            n = min(n, self.cfg.get('batch', 4))
            self.make_batch(self.events[self.first_unsent:self.first_unsent + n])
            self.first_unsent += n
        conn = self.held[0]
        self.held = None
        self.reply(conn)

    def reply(self, conn):
        b = self.batch
        b['sent'] += 1
        if b['sent'] > 1:
            self.world.note('eq_batch_resent')
        conn.batch = b
        doc = {u'id': b['id'], u'events': [{u'message': e['name'], u'body': e['body']} for e in b['events']]}
        self.http.answer(conn, 200, self.ctype(), document(doc), 'batch')

    # ---- what the client did with it
    def on_read(self, conn):
        if conn.e['outcome'] != 'batch':
            return
        b = conn.batch
        if self.received is b:
            self.bad('C10', 'eq-model', 'internal: batch %s received twice', b['id'])
            return
        s = self.session
        self.received = b
        self.world.note('eq_batches')
        names = {}
        for ev in b['events']:
            names[ev['name']] = list(s.subs.get(ev['name'], []))
        self.dw = dict(batch=b, pos=0, subs=names, name=names, changed=set(), tid=conn.owner.tid)
        s.dispatching.append(self.dw)

    def finish_batch(self):
        """everything of the batch received last must have been dispatched"""
        dw, self.dw = self.dw, None
        if dw is None:
            return
        s, w = self.session, self.world
        s.dispatching.remove(dw)
        for ev in dw['batch']['events']:
            if w.viol:
                return
            w.check_calls('C10 C07 C11', dict(calls=ev['calls'], subs=dw['subs'][ev['name']], changed=dw['changed'], raised=ev.get('raised')),
                          'event %d (%s) of batch %s' % (ev['i'], ev['name'], dw['batch']['id']))

    def delivered(self, s, sub, e):
        """a handler got something from the event queue"""
        dw, name = self.dw, e['name']
        w = self.world
        if dw is None or e['tid'] != dw['tid']:
            prev = [ev for ev in self.events if ev['name'] == name]
            self.bad('C10 C15', prev and 'eq-redelivered' or 'eq-unsent', 'event %s was dispatched although no new batch was received', name)
            return
        evs = dw['batch']['events']
        pos = dw['pos']
        # the event at the position, or a later one if the rest is not subscribed
        k = pos
        while k < len(evs) and (evs[k]['name'] != name or sub.sid in [c['sid'] for c in evs[k]['calls']] or evs[k].get('raised') or self.differs(evs[k], e)):
            k += 1
        if k >= len(evs):
            same_name = [ev for ev in evs[pos:] if ev['name'] == name]
            before = [ev for ev in evs[:pos + 1] if ev['name'] == name and not self.differs(ev, e)]
            if before:
                self.bad('C10 C07', 'eq-twice', 'event %d (%s) of batch %s was dispatched again or out of order', before[-1]['i'], name, dw['batch']['id'])
            elif same_name:
                self.bad('C10', 'eq-content', 'event %d (%s) of batch %s dispatched: %s', same_name[0]['i'], name, dw['batch']['id'], self.differs(same_name[0], e))
            else:
                self.bad('C10', 'eq-unsent', 'event %s is not in batch %s', name, dw['batch']['id'])
            return
        ev = evs[k]
        dw['pos'] = k
        ev['calls'].append(e)
        w.note('eq_dispatched')
        if sub.raises():
            ev['raised'] = True
        msg = e['msg']
        if getattr(msg, 'event_queue_id', None) != dw['batch']['id']:
            self.bad('C10', 'eq-id', 'event of batch %s carries the id %s', dw['batch']['id'], getattr(msg, 'event_queue_id', None))
        h = getattr(msg, 'host', None)
        if h is None or (h.ip, h.port) != s.host_addr:
            self.bad('C10 C15', 'eq-host', 'event of the queue of %s carries the host %s', s.host_addr, h)
        if sub.spec['name'] != name:
            self.bad('C07', 'wrong-handler', 'handler for %s got %s', sub.spec['name'], name)

    def differs(self, ev, e):
        snap = e['snap']
        exp = ev['blocks']
        if sorted(snap) != sorted(exp):
            # a block without instances leaves no trace
            if sorted(snap) != sorted([b for b in exp if exp[b]]):
                return 'blocks %s instead of %s' % (sorted(snap), sorted(exp))
        for b in exp:
            rows = snap.get(b, [])
            if len(rows) != len(exp[b]):
                return '%s: %d instances instead of %d' % (b, len(rows), len(exp[b]))
            for got, want in zip(rows, exp[b]):
                g = dict(got)
                if sorted(g) != sorted(want) or len(g) != len(got):
                    return '%s: fields %s instead of %s' % (b, sorted(g), sorted(want))
                for k in want:
                    if not same(g[k], want[k]):
                        return '%s.%s is %r instead of %r' % (b, k, g[k], want[k])
        return None
