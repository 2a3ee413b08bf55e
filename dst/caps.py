"""Capability calls of application coroutines against simulated web servers."""
import copy

import http as H
from core import RNG, TaskKilled, text_of
from env import P

STANDARD = set(['host', 'user-agent', 'accept-encoding', 'connection', 'content-type', 'content-length', 'accept'])
GARBAGE = ['', 'garbage', '<html><body>nope</body></html>', '<?xml version="1.0" ?><llsd></llsd>', '<?xml version="1.0" ?><llsd><map><key>a</key></map></llsd>',
           '<?xml version="1.0" ?><llsd><integer>seven</integer></llsd>', '<?xml version="1.0" ?><llsd><map><key>a</key><integer>1</integer></map>',
           '<?xml version="1.0" ?><llsd><foo>1</foo></llsd>', '[', "{'a':i1", '<?xml version="1.0" ?><llsd><uuid>zz</uuid></llsd>', '\xff\xfe\x00garbage',
           '<?xml version="1.0" ?><llsd><binary encoding="base64">a</binary></llsd>', '<llsd>']
STATUSES = [300, 302, 304, 305, 400, 401, 403, 405, 408, 409, 410, 412, 415, 418, 429, 499, 500, 501, 502, 503, 504, 505]


class CapServer(H.Server):
    """answers every request as the plan of the operation behind it says"""
    unusable = GARBAGE

    def __init__(self, http, name):
        self.http, self.sim, self.name = http, http.sim, name
        http.add(self, '/')

    def handle(self, conn):
        call = conn.call
        call['processed'] = call.get('processed', 0) + 1
        r = call['op']['resp']
        self.sim.after(r.get('d', 0.0), self.reply, conn, call, r)

    def on_connect(self, conn):
        w = self.world
        call = w.cap_calls.get(self.sim.current.tid)
        conn.call = call
        if call is None:
            w.bad('C12', 'cap-spontaneous', 'a request was made without a call')
            return
        call['conns'].append(conn)
        if len(call['conns']) > 1:
            w.bad('C12', 'cap-repeated', '%s of %s made %d requests', call['op']['m'], call['url'], len(call['conns']))

    def on_request(self, conn):
        self.world.check_request(conn)

    def reply(self, conn, call, r):
        k = r['k']
        call['answered'] = True
        if k == 'ok' and r['ctype'].startswith('text/html') and '\n' in call['body']:
            r = dict(r, ctype='application/llsd+xml')   # not recognised as LLSD
        if k == 'ok':
            self.http.respond(conn, r.get('status', 200), r['ctype'], call['body'], 'answer', reason=r.get('reason'))
        elif k == 'status':
            self.http.respond(conn, r['status'], r['ctype'], call['body'], 'status', reason=r.get('reason'))
        elif k == 'ctype':
            self.http.respond(conn, 200, r['ctype'], call['body'], 'ctype')
        elif k == 'garbage':
            self.http.respond(conn, 200, r['ctype'], GARBAGE[r['g'] % len(GARBAGE)], 'garbage')
        elif k == 'close':
            conn.e['outcome'] = 'closed'
            conn.end()


class CapOps(object):
    """mixed into World"""

    def cap_setup(self):
        self.cap_calls = {}
        self.cap_results = []
        self.cap_servers = []
        self.cap_objects = {}
        self.cap_children = []
        self.cap_last = None
        self.cap_client = self.cfg.get('shared_client') and P.StdLibClient() or None
        for i in range(self.cfg.get('capservers', 0)):
            srv = CapServer(self.http, 'cap%d' % i)
            srv.world = self
            self.cap_servers.append(srv)

    def cap_object(self, op):
        """Capability objects are shared between the coroutines"""
        key = op['cap']
        if key >= 200:
            # one granted by a seed capability
            if self.cap_children:
                self.note('cap_granted_used')
                return self.cap_children[key % len(self.cap_children)]
            key = key % 5
        if key not in self.cap_objects:
            srv = self.cap_servers[key % len(self.cap_servers)]
            # the paths and queries of capabilities are opaque
            url = 'http://%s:%d/c/%d' % (srv.addr + (key,)) + ['', '', '', '/', '?x=1&y=a%20b', '/%7Ea;p=1', '/a+b?', '/A//b/../c?q=/?'][(key * 5 + self.cfg.get('urls', 0)) % 8]
            st = P.Settings(**dict((str(k), v) for k, v in self.cfg.get('cap_ctor', {}).items()))
            for k, v in self.cfg.get('cap_settings', {}).items():
                setattr(st, k, v)
            cls = op['m'] == 'seed' and P.SeedCapability or P.Capability
            kw = {}
            if key % 3:
                kw['settings'] = st
            if self.cap_client is not None:
                kw['restclient'] = self.cap_client
            self.cap_objects[key] = (cls('cap%d' % key, url, **kw), url)
        return self.cap_objects[key]

    def op_cap(self, s, op):
        sim = self.sim
        cap, url = self.cap_object(op)
        rng = RNG(op['cs'])
        m = op['m']
        data = {u'token': op['id'], u'data': H.gen(rng, 2)}
        if rng.below(4) == 0:
            data = [op['id'], data, H.gen(rng, 1)]
        elif rng.below(8) == 0:
            # a long one
            data[u'long'] = [rng.bits(30) for _ in range(rng.choice([100, 400, 3000]))]
        elif rng.below(9) == 0:
            # anything LLSD can say is an answer
            data = rng.choice([False, False, 0, 0.0, u'', [], {}, None, True, 1, u'text', [[]], [False]])
        elif self.cap_last is not None and rng.below(4) == 0:
            # the same answer again
            data = self.cap_last
            self.note('cap_same_answer')
        self.cap_last = data
        headers = dict((str(k), str(v)) for k, v in (op.get('headers') or {}).items())
        names = ['Cap%d_%d' % (op['id'], i) for i in range(op.get('names', 2))]
        payload = None
        if m == 'seed':
            addr = self.cap_servers[op['id'] % len(self.cap_servers)].addr
            granted = dict((n, 'http://%s:%d/g/%d/%s' % (addr + (op['id'], n))) for n in names)
            data = {u'capabilities': dict((n.decode('ascii'), u.decode('ascii')) for n, u in granted.items())}
            if rng.below(2):
                data[u'capabilities'][u'Other'] = u'http://10.9.9.9/other'
            payload = {'capabilities': names}
        elif m == 'POST':
            payload = plain(H.gen(rng, 2))
            if rng.below(10) == 0:
                payload = [payload] + range(rng.choice([200, 2000]))
            if op['resp']['k'] == 'badpayload':
                payload = rng.choice(['text', 7, None, (1, 2)])
            elif not isinstance(payload, (list, dict)):
                payload = {'id': op['id'], 'v': payload}
        elif m == 'CUSTOM':
            payload = ''.join([chr(32 + rng.below(90)) for _ in range(rng.choice([1, 20, 3000]))])
            headers.setdefault('Content-type', rng.choice(['application/vnd.ll.notecard', 'text/plain']))
        body = H.document(data)
        if op['resp']['k'] == 'status':
            body = rng.choice(['', 'error text %d' % op['id'], '<html>%d</html>' % op['id'], H.document(data), 'long error text %d ' % op['id'] * rng.choice([60, 300, 5000])])
        if op['resp']['k'] == 'ctype' and op['resp']['ctype'].startswith('text/html'):
            body = '<html><body>%d</body></html>' % op['id']
        if op['resp']['k'] == 'status' and op['resp']['status'] == 304:
            body = ''
        call = dict(op=op, url=url, data=data, body=body, headers=headers, payload=payload, conns=[], names=names)
        tid = sim.current.tid
        self.cap_calls[tid] = call
        given, payload0, names0 = dict(headers), copy.deepcopy(payload), list(names)
        res = exc_ = None
        try:
            if m == 'GET':
                res = cap.GET(headers) if headers or rng.below(2) else cap.GET()
            elif m == 'POST':
                res = cap.POST(payload, headers) if headers or rng.below(2) else cap.POST(payload)
            elif m == 'CUSTOM':
                res = cap.POST_CUSTOM(headers, payload)
            else:
                res = cap.get(names)
        except TaskKilled:
            raise
        except Exception, e:
            exc_ = e
        del self.cap_calls[tid]
        out = call['conns'] and call['conns'][-1].e['outcome'] or 'none'
        self.cap_results.append((op['id'], exc_ is not None and (type(exc_).__name__, str(exc_)[:300]) or None))
        sim.rec('cap', op['id'], m, out, exc_ is not None and type(exc_).__name__ or 'ok')
        self.note('cap_calls')
        if self.viol:
            return
        if headers != given:
            self.bad('C12', 'cap-headers-changed', '%s of %s changed the header dictionary of the caller to %s', m, url, headers)
            return
        if names != names0 or not (H.same(payload, payload0) or type(payload) is tuple and payload == payload0):
            self.bad('C12', 'cap-payload-changed', '%s of %s changed the data of the caller to %s', m, url, repr(m == 'seed' and names or payload)[:200])
            return
        self.judge(op, call, cap, out, res, exc_)
        if exc_ is None and not self.viol and rng.below(2):
            # the answer belongs to the caller now
            if isinstance(res, list):
                res.append(u'mine')
            elif isinstance(res, dict) and m != 'seed':
                res[u'mine'] = [u'mine']
        if m == 'seed' and exc_ is None and not self.viol:
            for n in names:
                self.cap_children.append((res[n], granted[n]))

    def judge(self, op, call, cap, out, res, e):
        E = P.exc
        m, url = op['m'], call['url']
        what = '%s of %s' % (m == 'CUSTOM' and 'POST_CUSTOM' or m, url)

        def got():
            if e is not None:
                return '%s (%s)' % (type(e).__name__, text_of(e)[:200])
            return 'the result %s' % repr(res)[:200]
        k = op['resp']['k']
        self.note('cap_' + out)
        if k == 'badpayload':
            if not isinstance(e, E.DeserializerNotFound) or call['conns']:
                self.bad('C12', 'cap-payload', '%s with payload %r gave %s', what, call['payload'], got())
            return
        if not call['conns']:
            self.bad('C12', 'cap-no-request', '%s made no request and gave %s', what, got())
            return
        conn = call['conns'][-1]
        if out in ('refused', 'reset_req', 'reset_resp', 'truncated', 'closed'):
            if e is None:
                self.bad('C12', 'cap-broken', '%s gave %s although the connection was %s', what, got(), out)
            return
        if out == 'answer':
            if e is not None:
                self.bad('C12', 'cap-answer-lost', '%s gave %s although the server answered', what, got())
            elif m == 'seed':
                ok = isinstance(res, dict) and sorted(res) == sorted(call['names'])
                for n in call['names']:
                    ok = ok and res[n].public_url == call['data']['capabilities'][n.decode('ascii')] and res[n].name == n
                if not ok:
                    self.bad('C12', 'seed-map', '%s for %s gave %s', what, call['names'], repr(res)[:300])
            elif not H.same(res, call['data']):
                self.bad('C12', 'cap-answer', '%s gave %s, the server answered %s', what, got(), repr(call['data'])[:200])
            return
        if out in ('status', 'error'):
            st = conn.e['status']
            if st == 404:
                if not isinstance(e, E.ResourceNotFound) or e.url != url:
                    self.bad('C12', 'cap-404', '%s answered with 404 gave %s', what, got())
            elif not isinstance(e, E.ResourceError):
                self.bad('C12', 'cap-status', '%s answered with %d gave %s', what, st, got())
            else:
                want = (url, st, op['resp'].get('reason') or H.REASONS.get(st, 'Status'), conn.e['answer'], m == 'GET' and 'GET' or 'POST')
                have = (e.url, e.code, e.message, e.body, e.method)
                if out == 'error':
                    want, have = want[:2] + want[3:], have[:2] + have[3:]
                if have != want:
                    self.bad('C12', 'cap-status-data', '%s answered with %d raised an error with %s instead of %s', what, st, have, want)
            return
        if out == 'ctype':
            if not isinstance(e, E.DeserializerNotFound):
                self.bad('C12', 'cap-ctype', '%s answered with content type %s gave %s', what, op['resp']['ctype'], got())
            elif e.content_type != op['resp']['ctype'].split(';')[0]:
                self.bad('C12', 'cap-ctype', '%s answered with content type %s raised an error for %r', what, op['resp']['ctype'], e.content_type)
            return
        if out == 'garbage':
            if not isinstance(e, E.DeserializationError):
                self.bad('C12', 'cap-garbage', '%s answered with unusable data gave %s', what, got())
            return
        self.bad('C12', 'cap-hung', '%s gave %s before the server answered', what, got())

    def check_request(self, conn):
        """what the server received against what the caller gave"""
        from llbase import llsd
        call = conn.call
        if call is None:
            return
        e, op = conn.e, call['op']
        what = '%s of %s' % (op['m'], call['url'])
        path = call['url'].split('/', 3)[3]
        if e['path'] != '/' + path or e['method'] != (op['m'] == 'GET' and 'GET' or 'POST'):
            self.bad('C12', 'request-line', '%s arrived as %s %s', what, e['method'], e['path'])
            return
        if e['headers'].get('host') != '%s:%d' % conn.server.addr:
            self.bad('C12', 'request-host', '%s arrived for host %s', what, e['headers'].get('host'))
            return
        for k, v in call['headers'].items():
            if e['headers'].get(k.lower()) != v:
                self.bad('C12', 'request-header', '%s: header %s: %s arrived as %s', what, k, v, e['headers'].get(k.lower()))
                return
        extra = [k for k in e['headers'] if k not in STANDARD and k not in [x.lower() for x in call['headers']]]
        if extra:
            self.bad('C12', 'request-extra', '%s arrived with headers nobody asked for: %s', what, extra)
            return
        m = op['m']
        if m == 'GET':
            if e['body']:
                self.bad('C12', 'request-body', '%s arrived with the body %r', what, e['body'][:80])
        elif m == 'CUSTOM':
            if e['body'] != call['payload']:
                self.bad('C12', 'request-body', '%s arrived with another body: %r', what, e['body'][:80])
        else:
            if 'content-type' not in [x.lower() for x in call['headers']] and e['headers'].get('content-type') != 'application/llsd+xml':
                self.bad('C12', 'request-ctype', '%s arrived with content type %s', what, e['headers'].get('content-type'))
                return
            try:
                data = llsd.parse(e['body'])
            except Exception, x:
                data = x
            if not H.same(data, call['payload']):
                self.bad('C12', 'request-body', '%s arrived as %s instead of %s', what, repr(data)[:200], repr(call['payload'])[:200])


def plain(x):
    """generated LLSD as the types an application would use"""
    from llbase import llsd
    if isinstance(x, H.Binary):
        return llsd.binary(str(x))
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x
