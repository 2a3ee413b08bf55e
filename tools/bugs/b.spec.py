L = 'pyogp/lib/base/'

bug('c07-unsub-any-args', 'C07', [
    (L+'events.py', "            self.subscribers.remove((handler, args, kwargs))\n",
     "            known = [entry[0] for entry in self.subscribers]\n            del self.subscribers[known.index(handler)]\n"),
    ], 'one function subscribed twice with different arguments, the later one unsubscribed',
    'unsubscribing looks at the handler only and removes the first subscription of the function', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
def f(m, who):
    got.append(who)
r = h.register('StartPingCheck')
for who in 'abc':
    r.subscribe(f, who)
r.unsubscribe(f, 'b')
h.handle(ping_msg())
expect(got, ['a', 'c'], 'called after the second of three subscriptions of one function was removed')
''')

bug('c07-unsub-by-name-args', 'C07', [
    (L+'events.py', "        self.subscribers.append( ( handler, args, kwargs) )\n",
     "        #the ones without arguments of their own need nothing prepared\n        if args or kwargs:\n            self.subscribers.append((handler, args, kwargs))\n        else:\n            self.subscribers.insert(len([s for s in self.subscribers if not (s[1] or s[2])]), (handler, args, kwargs))\n"),
    ], 'a handler with arguments subscribed before one without',
    'handlers without arguments are called before those with arguments, whatever the order of subscription', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
r = h.register('StartPingCheck')
r.subscribe(lambda m, who: got.append(who), 'first')
r.subscribe(lambda m: got.append('second'))
h.handle(ping_msg())
expect(got, ['first', 'second'], 'the order in which subscribers are called')
''')

bug('c07-raising-unsubscribes', 'C07', [
    (L+'events.py', "                traceback.print_exc()\n                logger.warning(\"Error in event firing module\")\n                raise ",
     "                traceback.print_exc()\n                logger.warning(\"Error in event firing module\")\n                if len(self.subscribers) > 1 and (instance, inner_args, kwargs) in self.subscribers:\n                    #do not let it stand in the way of the others again\n                    self.subscribers.remove((instance, inner_args, kwargs))\n                raise"),
    ], 'a handler which raises once, of a message with several subscribers',
    'a handler which raised is unsubscribed', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
def f(m):
    got.append(m['PingID'][0]['PingID'])
    if len(got) == 2:
        raise ValueError('once')
r = h.register('StartPingCheck')
r.subscribe(f)
r.subscribe(lambda m: None)
for n in range(1, 5):
    try:
        h.handle(ping_msg(n))
    except ValueError:
        pass
expect(got, [1, 2, 3, 4], 'messages a handler got which raised at the second')
''')

bug('c08-drain-snapshot', 'C08', [
    (L+'message_manager.py', "            while len(self.outgoing_queue) > 0:                \n                (packet, reliable) = self.outgoing_queue.pop(0)\n                try:",
     "            #what is queued meanwhile is for the next round\n            pending = len(self.outgoing_queue)\n            for (packet, reliable) in self.outgoing_queue[:pending]:\n                try:"),
    (L+'message_manager.py', "        logger.debug(\"Stopped the UDP connection for %s\" % (self.host))", "            del self.outgoing_queue[:pending]\n\n        logger.debug(\"Stopped the UDP connection for %s\" % (self.host))"),
    ], 'a message queued with now=True while the queue is being sent (from another coroutine or an outgoing handler)',
    'the urgent message is dropped and the last one of the queue is sent twice', r'''
from kit import *
m, k = manager()
for n in range(1, 4):
    m.enqueue_message(ping_msg(n))
def on_send(data, addr):
    if data[7] == '\2':
        k.on_send = None
        m.enqueue_message(pong_msg(9), now=True)
k.on_send = on_send
count = []
def on_empty():
    count.append(1)
    if len(count) > 3:
        m.stop_monitors()
k.on_empty = on_empty
m.start_monitors()
run()
expect([x[6:8] for x, a in k.sent], ['\1\1', '\1\2', '\2\x09', '\1\3'], 'sent, with an urgent message queued at the second of three')
''')

bug('c08-now-order', 'C08', [
    (L+'message_manager.py', "            self.outgoing_queue.insert(0, (message, reliable))\n",
     "            #behind the urgent ones which are there already\n            self.outgoing_queue.insert(len([q for q in self.outgoing_queue if q[1]]), (message, reliable))\n"),
    ], 'reliable messages in the queue when an urgent one is queued',
    'an urgent message does not go first but is inserted according to the number of reliable messages queued', r'''
from kit import *
m, k = manager()
m.enqueue_message(ping_msg(1))
m.enqueue_message(ping_msg(2), reliable=True)
m.enqueue_message(ping_msg(3))
m.enqueue_message(pong_msg(9), now=True)
m.start_monitors()
run()
expect([x[6:8] for x, a in k.sent][:4], ['\2\x09', '\1\1', '\1\2', '\1\3'], 'order of sending')
''')

bug('c09-stopped-reset', 'C09', [
    (L+'event_queue.py', "            if self.cap.name == 'event_queue':\n\n                if self", "            self.stopped = False\n\n            if self.cap.name == 'event_queue':\n\n                if self"),
    ], 'stopping a session before the event queue coroutine ran for the first time',
    'the stop is forgotten when the coroutine begins, polling goes on for ever', r'''
from kit import *
polls = []
class Cap(object):
    name = 'EventQueueGet'
    def POST(self, data):
        polls.append(data)
        if len(polls) > 20:
            import os
            print 'FAIL it polls on and on'
            sys.stdout.flush()
            os._exit(1)
        return {'id': len(polls), 'events': []}
m, k = manager(capabilities={'EventQueueGet': Cap()})
m.start_monitors()
m.stop_monitors()
while Api.tasks:
    run()
expect(len(polls), 0, 'polls of a session stopped at once')
''')

bug('c09-running-in-coroutine', 'C09', [
    (L+'message_manager.py', "        logger.debug('Spawning region UDP connection')\n        while self._is_running:", "        logger.debug('Spawning region UDP connection')\n        self._is_running = True\n        while self._is_running:"),
    (L+'message_manager.py', "        self._is_running = True\n\n        logger.debug('Spawning region UDP connection')\n\n", "        logger.debug('Spawning region UDP connection')\n\n"),
    ], 'stopping a session before the UDP coroutine ran for the first time',
    'the UDP side starts although the session was stopped already', r'''
from kit import *
m, k = manager()
m.start_monitors()
m.stop_monitors()
n = []
def on_empty():
    n.append(1)
    if len(n) > 20:
        print 'FAIL it receives on and on'
        sys.stdout.flush()
        import os
        os._exit(1)
k.on_empty = on_empty
m.enqueue_message(ping_msg(1))
while Api.tasks:
    run()
expect(len(k.sent), 0, 'datagrams sent by a session stopped at once')
''')

bug('c09-final-only-if-unacked', 'C09', [
    (L+'event_queue.py', "            if self.last_id != -1:\n                # Need", "            if self.last_id != -1 and self.data.get('ack') != self.last_id:\n                # Need"),
    ], 'stopping while the poll which acknowledges the last batch is outstanding',
    'the final request (done) is left out when the last poll carried the same ack', r'''
from kit import *
polls = []
class Cap(object):
    name = 'EventQueueGet'
    def POST(self, data):
        polls.append(dict(data))
        if len(polls) == 1:
            return {'id': 7, 'events': []}
        m.stop_monitors()
        raise IOError('502')
m, k = manager(capabilities={'EventQueueGet': Cap()})
m.start_monitors()
run(Api.tasks[1])
expect(polls, [{}, {'ack': 7}, {'ack': 7, 'done': True}], 'requests of a session stopped during its second poll')
''')

bug('c10-older-ids', 'C10', [
    (L+'event_queue.py', "                    self._parse_result(self.result)\n\n                except",
     "                    if self.result != None and self.result.has_key('events') and 'ack' in self.data \\\n                    and self.result['id'] < self.data['ack']:\n                        #an old one, on a detour\n                        continue\n\n                    self._parse_result(self.result)\n\n                except"),
    ], 'a server which starts its ids again from a lower number (it was restarted)',
    'batches with an id below the last one are acknowledged, but not delivered', r'''
from kit import *
got, ids = [], [5, 6, 1, 2]
class Cap(object):
    name = 'EventQueueGet'
    def POST(self, data):
        if not ids:
            m.stop_monitors()
            raise IOError('502')
        i = ids.pop(0)
        return {'id': i, 'events': [{'message': 'Unheard', 'body': {'n': i}}]}
m, k = manager(capabilities={'EventQueueGet': Cap()})
m.message_handler.register('Unheard').subscribe(lambda p: got.append(p['Message_Data'][0]['n']))
m.start_monitors()
run(Api.tasks[1])
expect(got, [5, 6, 1, 2], 'events delivered')
''')

bug('c10-dedupe-equal-events', 'C10', [
    (L+'event_queue.py', "                        for message in data[i]:\n", "                        for position, message in enumerate(data[i]):\n\n                            if message in data[i][:position]:\n                                #said already\n                                continue\n"),
    ], 'two equal events in one batch',
    'the second of two equal events of a batch is dropped', r'''
from kit import *
got = []
class Cap(object):
    name = 'EventQueueGet'
    n = 0
    def POST(self, data):
        self.n += 1
        if self.n > 1:
            m.stop_monitors()
            raise IOError('502')
        return {'id': 1, 'events': [{'message': 'Unheard', 'body': {'n': i}} for i in (1, 2, 1, 1)]}
m, k = manager(capabilities={'EventQueueGet': Cap()})
m.message_handler.register('Unheard').subscribe(lambda p: got.append(p['Message_Data'][0]['n']))
m.start_monitors()
run(Api.tasks[1])
expect(got, [1, 2, 1, 1], 'events delivered')
''')

bug('c11-eager-after-events', 'C11', [
    (L+'event_queue.py', "                    api.sleep(self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL)\n",
     "                    if self.result == None or len(self.result.get('events', ())) < 3:\n                        api.sleep(self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL)\n                    else:\n                        #there may be more of them\n                        api.sleep(0)\n"),
    ], 'a batch with three or more events',
    'after a larger batch the next poll is made without the interval', r'''
from kit import *
trace = []
def on_sleep(n):
    trace.append(n)
    if len(trace) > 50:
        print 'FAIL it goes on and on', trace
        import os
        sys.stdout.flush()
        os._exit(1)
Api.on_sleep = on_sleep
class Cap(object):
    name = 'EventQueueGet'
    n = 0
    def POST(self, data):
        trace.append('poll')
        self.n += 1
        if self.n > 3:
            m.stop_monitors()
            raise IOError('502')
        return {'id': self.n, 'events': [{'message': 'Unheard', 'body': {'n': i}} for i in range(2 * self.n)]}
m, k = manager(capabilities={'EventQueueGet': Cap()})
m.start_monitors()
run(Api.tasks[1])
expect(trace[:8], [1, 'poll'] * 4, 'sleeps and polls')
''')

bug('c11-ack-before-parse', 'C11', [
    (L+'event_queue.py', "                    self.data = {}\n                    if self.last_id != -1:\n                        self.data = {'ack':self.last_id}\n",
     "                    if self.last_id > 0:\n                        self.data = {'ack':self.last_id}\n"),
    ], 'a server whose ids may be zero or negative',
    'a batch with the id 0 (or below -1) is not acknowledged', r'''
from kit import *
polls, ids = [], [3, 0, -7]
class Cap(object):
    name = 'EventQueueGet'
    def POST(self, data):
        polls.append(dict(data))
        if not ids:
            m.stop_monitors()
            raise IOError('502')
        return {'id': ids.pop(0), 'events': []}
m, k = manager(capabilities={'EventQueueGet': Cap()})
m.start_monitors()
run(Api.tasks[1])
expect([p.get('ack') for p in polls], [None, 3, 0, -7, -7], 'acks of the polls')
''')

STUB = r'''
from kit import *
class Client(object):
    """answers what it is told"""
    def __init__(self, *answers):
        self.answers, self.calls = list(answers), []
    def POST(self, url, data, headers={}):
        self.calls.append((url, data, dict(headers)))
        return self.GET(url)
    def GET(self, url, headers={}):
        from pyogp.lib.base.exc import HTTPError
        import StringIO
        a = self.answers.pop(0)
        if isinstance(a, tuple):
            raise HTTPError(a[0], 'msg', StringIO.StringIO(a[1]))
        class R(object):
            headers = {'Content-Type': 'application/llsd+xml'}
            body = a
        return R()
from pyogp.lib.base.caps import Capability, SeedCapability
from pyogp.lib.base import exc
'''

bug('c12-headers-mutated', 'C12', [
    (L+'caps.py', "        headers = {\"Content-type\" : content_type}\n        headers.update(custom_headers)  # give the user the ability to add headers \n",
     "        headers = custom_headers  # give the user the ability to add headers\n        if \"Content-type\" not in headers:\n            headers[\"Content-type\"] = content_type\n"),
    ], 'a header dict of the caller used for a second call (or the shared default one)',
    'the dict of the caller is changed by the call', STUB + r'''
mine = {'X-Mine': '1'}
c = Capability('c', 'http://127.0.0.1/c', Client('<llsd><integer>1</integer></llsd>'), quiet())
c.POST({}, mine)
expect(mine, {'X-Mine': '1'}, 'headers of the caller after a POST')
''')

bug('c12-retry-503', 'C12', [
    (L+'caps.py', "            response = self.restclient.POST(self.public_url, serialized_payload, headers=headers)\n        except HTTPError, e:\n            if e.code==404:",
     "            response = self.restclient.POST(self.public_url, serialized_payload, headers=headers)\n        except HTTPError, e:\n            if e.code==503:\n                #busy, try it once more\n                return self._response_handler(self.restclient.POST(self.public_url, serialized_payload, headers=headers))\n            if e.code==404:"),
    ], 'a 503 answer to a POST',
    'a POST is repeated when the server is busy: it is processed twice, and a second failure leaves as a raw HTTPError', STUB + r'''
cl = Client((503, 'busy'), '<llsd><integer>1</integer></llsd>')
c = Capability('c', 'http://127.0.0.1/c', cl, quiet())
try:
    print c.POST({'a': 1})
    got = 'an answer'
except exc.ResourceError, e:
    got = 'ResourceError %s' % e.code
expect((got, len(cl.calls)), ('ResourceError 503', 1), 'a POST to a busy server')
''')

bug('c12-seed-skips-missing', 'C12', [
    (L+'caps.py', "        for name in names:\n", "        for name in parsed_result:\n"),
    ], 'a seed capability which answers with other names than those requested',
    'capabilities which were not asked for are returned, and missing ones are silently left out', STUB + r'''
cl = Client('<llsd><map><key>capabilities</key><map><key>a</key><string>http://127.0.0.1/a</string><key>z</key><string>http://127.0.0.1/z</string></map></map></llsd>')
c = SeedCapability('seed', 'http://127.0.0.1/c', cl, quiet())
expect(sorted(c.get(['a'])), ['a'], 'capabilities returned for [a]')
''')

bug('c12-404-any-4xx', 'C12', [
    (L+'caps.py', "        try:\n            response = self.restclient.GET(self.public_url, headers=custom_headers)\n        except HTTPError, e:\n            if e.code==404:", 
     "        try:\n            response = self.restclient.GET(self.public_url, headers=custom_headers)\n        except HTTPError, e:\n            if e.code in (404, 410):"),
    ], 'a 410 answer to a GET',
    'a GET answered with 410 raises ResourceNotFound instead of a ResourceError with the status', STUB + r'''
c = Capability('c', 'http://127.0.0.1/c', Client((410, 'gone')), quiet())
try:
    c.GET()
    got = None
except exc.ResourceNotFound:
    got = 'ResourceNotFound'
except exc.ResourceError, e:
    got = e.code
expect(got, 410, 'status of the error')
''')

bug('c13-acks-bypass', 'C13', [
    (L+'message/udpdeserializer.py', "            if not self.message_xml.validate_udp_msg(self.current_template.name):\n", "            if not temp_acks and not self.message_xml.validate_udp_msg(self.current_template.name):\n"),
    ], 'a banned message which carries appended acks',
    'an HTTP-only message received over UDP is delivered when acks are appended to it', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
h.register('EnableSimulator').subscribe(lambda m: got.append(m.name))
d, s = dispatcher(handler=h)
receive(d, s, packet(1, '\xff\xff\x00\x97' + '\x7f\0\0\1' + '\x32\xc8' + '\0' * 8))
receive(d, s, packet(2, '\xff\xff\x00\x97' + '\x7f\0\0\1' + '\x32\xc8' + '\0' * 8, 0, [1]))
expect(got, [], 'banned messages delivered')
''')

bug('c13-flavor-cache', 'C13', [
    (L+'message/message_dot_xml.py', "        if self.messages.has_key(msg_name):\n            if self.messages[msg_name]['flavor'] == 'template':\n                return True\n            else:\n                return False\n        else:\n            return True",
     "        if msg_name not in MessageDotXML.allowed:\n            MessageDotXML.allowed[msg_name] = self.messages.get(msg_name, {'flavor': 'template'})['flavor'] == 'template'\n\n        return MessageDotXML.allowed[msg_name]"),
    (L+'message/message_dot_xml.py', "    def validate_udp_msg", "    #what is known already, message.xml is large\n    allowed = {}\n\n    def validate_udp_msg"),
    ], 'two sessions of one process with different message.xml files',
    'the first session which meets a message decides for all whether it may cross UDP', r'''
from kit import *
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
doc = '<llsd><map><key>serverDefaults</key><map /><key>messages</key><map><key>StartPingCheck</key><map><key>flavor</key><string>%s</string></map></map><key>capBans</key><map /><key>maxQueuedEvents</key><integer>1</integer><key>messageBans</key><map /></map></llsd>'
one, two = MessageDotXML(doc % 'template'), MessageDotXML(doc % 'llsd')
expect([one.validate_udp_msg('StartPingCheck'), two.validate_udp_msg('StartPingCheck'), one.validate_udp_msg('StartPingCheck')], [True, False, True], 'allowed by each of two message.xml')
''')

bug('c14-resent-unsubscribed', 'C14', [
    (L+'message/udpdispatcher.py', "                send_flags = ord(msg_buf[0])\n",
     "                send_flags = ord(msg_buf[0])\n                if send_flags & PackFlags.LL_RESENT_FLAG:\n                    #it has been acked before\n                    send_flags &= ~PackFlags.LL_RELIABLE_FLAG\n"),
    (L+'message/udpdispatcher.py', "            if recv_packet == None:\n", "            if recv_packet is None:\n"),
    ], 'a reliable message nobody is subscribed to, whose first ack or first copy was lost',
    'retransmissions of messages which are not parsed are not acknowledged', r'''
from kit import *
d, s = dispatcher()
receive(d, s, packet(1, ping(1), 0x40))
d.process_acks()
receive(d, s, packet(1, ping(1), 0x60))
d.process_acks()
got = []
for x, a in s.sent:
    got += acks_in(x)
expect(got, [1, 1], 'acks for a reliable datagram and its retransmission')
''')

bug('c14-short-id', 'C14', [
    (L+'message/udpdispatcher.py', "                packet_id = self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, 1, endian_type=EndianType.BIG)\n",
     "                packet_id = self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U16, 3, endian_type=EndianType.BIG)\n"),
    ], 'reliable messages nobody is subscribed to, with packet ids from 65536 on',
    'messages which are not parsed are acknowledged under the low half of their number', r"""
from kit import *
d, s = dispatcher()
for n in (5, 65535, 65536, 70000):
    receive(d, s, packet(n, ping(1), 0x40))
d.process_acks()
got = []
for x, a in s.sent:
    got += acks_in(x)
expect(got, [5, 65535, 65536, 70000], 'acks')
""")

bug('c15-handlers-class-attr', 'C15', [
    (L+'message/message_handler.py', "        self.handlers = {}\n", "        self.handlers = settings.__dict__.setdefault('handlers', {}) if settings != None else {}\n"),
    ], 'two sessions created with one settings object',
    'sessions which share a settings object share their subscriptions', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
st = quiet()
h1, h2 = MessageHandler(st), MessageHandler(st)
got = []
h1.register('StartPingCheck').subscribe(lambda m: got.append(1))
h2.register('StartPingCheck').subscribe(lambda m: got.append(2))
h1.handle(ping_msg())
expect(got, [1], 'handlers called by the first of two message handlers')
''')

bug('c15-unacked-circuits-shared', 'C15', [
    (L+'message/circuit.py', "        self.circuit_map = {}\n        self.unacked_circuits = {}\n", "        self.circuit_map = {}\n"),
    (L+'message/circuit.py', "        functionality to do so. \"\"\"\n", "        functionality to do so. \"\"\"\n\n    unacked_circuits = {}\n\n"),
    ], 'two sessions in one process with reliable messages outstanding',
    'a session retransmits what another session sent, spends its retries, and is in turn displaced', r'''
from kit import *
d1, s1 = dispatcher()
d2, s2 = dispatcher()
d1.send_reliable(ping_msg(1), host(), 3)
d2.process_acks()
expect(len(s2.sent), 0, 'datagrams of another session sent')
''')

bug('c16-wait-in-slices', 'C16', [
    (L+'helpers.py', "                api.sleep()\n                now = time.time()\n", "                api.sleep(max(0, self.duration - (now - start)) / 2.0)\n                now = time.time()\n                if self.duration - (now - start) < 0.25:\n                    break\n"),
    ], 'the exact time at which the wait ends',
    'a wait returns up to a quarter of a second early', r'''
from kit import *
import pyogp.lib.base.helpers as H
class T(object):
    now = 1000.0
    def time(self):
        return self.now
t = T()
H.time = t
def step(n=0):
    t.now += max(n, 0.01)
Api.on_sleep = step
H.Wait(5)
expect(t.now - 1000.0 >= 5, True, 'waited for %s seconds' % (t.now - 1000.0))
''')

bug('c16-one-long-sleep', 'C16', [
    (L+'helpers.py', "                api.sleep()\n                now = time.time()\n", "                api.sleep(max(0, self.duration - (now - start)))\n                now = time.time()\n"),
    ], 'stop() of a wait in progress',
    'a stopped wait goes on blocking its caller until its duration is over', r'''
from kit import *
import pyogp.lib.base.helpers as H
class T(object):
    now = 1000.0
    def time(self):
        return self.now
t = T()
H.time = t
class W(H.Wait):
    def __init__(self, d):
        self.me = self
        W.me = self
        H.Wait.__init__(self, d)
def step(n=0):
    t.now += max(n, 0.01)
    if t.now > 1001:
        W.me.stop()
Api.on_sleep = step
W(60)
expect(t.now - 1000.0 < 5, True, 'a wait stopped after a second took %s seconds' % (t.now - 1000.0))
''')

bug('c17-none-sent', 'C17', [
    (L+'network/net.py', "        if send_buffer == None:\n            raise Exception(\"No data specified\")\n", "        if send_buffer == None:\n            #nothing to do\n            return\n"),
    ], 'a reliable message which may not be sent over UDP',
    'a banned reliable message counts as sent and stays outstanding for ever', r'''
from kit import *
d, s = dispatcher()
m = Message('EnableSimulator', Block('SimulatorInfo', Handle=1, IP='\x7f\0\0\1', Port=1))
d.send_reliable(m, host(), 3)
c = d.find_circuit(host())
expect((len(s.sent), len(c.unacked_packets)), (0, 0), 'sent and outstanding')
''')

bug('c17-retry-error-ends-round', 'C17', [
    (L+'message/udpdispatcher.py', "            for unacked_packet in circuit.unacked_packets.values():\n", "            working = True\n            for unacked_packet in circuit.unacked_packets.values():\n\n                if not working:\n                    #no use to try the others now\n                    break\n"),
    (L+'message/udpdispatcher.py', "                self.send_retry(unacked_packet, circuit.host)\n", "                working = self.send_retry(unacked_packet, circuit.host) != None\n"),
    (L+'message/udpdispatcher.py', "        for circuit in self.circuit_manager.unacked_circuits.values():\n", "        for circuit in list(self.circuit_manager.unacked_circuits.values()):\n"),
    ], 'a send error in the middle of a round of retransmissions',
    'the retransmissions behind a failed one are put off', r'''
from kit import *
import errno, socket as real
d, s = dispatcher()
for n in range(4):
    d.send_reliable(ping_msg(n), host(), 1)
del s.sent[:]
tried = []
def on_send(data, addr):
    tried.append(seq_of(data))
    if len(tried) == 2:
        raise real.error(errno.ENOBUFS, 'No buffer space')
s.on_send = on_send
d.process_acks()
expect(sorted(tried), [1, 2, 3, 4], 'retransmissions tried in one round')
''')

bug('c18-host-string', 'C18', [
    (L+'message/udpdispatcher.py', "                if self.settings.ENABLE_HOST_LOGGING:\n                    host_string = ' (%s)' % (host)\n                else:\n                    host_string = ''\n                if not self.settings.PROXY_LOGGING:",
     "                if self.settings.ENABLE_HOST_LOGGING:\n                    host_string = ' (%s)' % (host)\n                if not self.settings.PROXY_LOGGING:"),
    ], 'UDP logging on with host logging off',
    'receiving fails before the handlers are called with one combination of logging settings', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
st = Settings()
st.ENABLE_HOST_LOGGING = False
h = MessageHandler(st)
got = []
h.register('StartPingCheck').subscribe(lambda m: got.append(m.name))
d, s = dispatcher(st, h)
try:
    receive(d, s, packet(1, ping(1)))
except Exception, e:
    print e
expect(got, ['StartPingCheck'], 'delivered without host logging')
''')

bug('c18-spammer-return', 'C18', [
    (L+'message/udpdispatcher.py', "                if packet.name in self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS:\n                    pass\n",
     "                if packet.name in self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS and reliable:\n                    #nothing more to log\n                    self.udp_client.send_packet(self.socket, send_buffer, host)\n                    return\n"),
    ], 'a reliable AgentUpdate with UDP logging on and spammers disabled',
    'the send of a message on the spammer list returns nothing and is not counted with some logging settings', r'''
from kit import *
out = []
for st in (Settings(), quiet()):
    st.UDP_SPAMMERS = ['StartPingCheck']
    d, s = dispatcher(st)
    out.append((d.send_reliable(ping_msg(1), host(), 1), d.packets_out))
expect(out[0], out[1], 'result and count of a send with and without logging')
''')

bug('c05-latin1-text', 'C05', [
    (L+'message/data_packer.py', "            return pack_string.encode('utf-8') + '\\x00'\n", "            return pack_string.encode(max(pack_string or u' ') < u'\\u0100' and 'latin-1' or 'utf-8') + '\\x00'\n"),
    ], 'text with characters between U+0080 and U+00FF and none above',
    'text in western languages is sent in latin-1', r'''
from kit import *
d, s = dispatcher()
for t in (u'plain', u'caf\xe9', u'\u65e5'):
    d.send_message(Message('AlertMessage', Block('AlertData', Message=t), Block('AlertInfo', Message='', ExtraParams='')) if 0 else Message('AgentAlertMessage', Block('AgentData', AgentID=__import__('uuid').UUID(int=1)), Block('AlertData', Modal=0, Message=t)), host())
expect([x[28:-1] for x, a in s.sent], [t.encode('utf-8') for t in (u'plain', u'caf\xe9', u'\u65e5')], 'texts on the wire')
''')

bug('c05-block-count-signed', 'C05', [
    (L+'message/udpdeserializer.py', "                repeat_count = self.unpacker.unpack_data(data, \\\n                                                         MsgType.MVT_U8, \\\n", "                repeat_count = self.unpacker.unpack_data(data, \\\n                                                         MsgType.MVT_S8, \\\n"),
    ], 'a message with 128 or more instances of a block',
    'blocks beyond 127 instances are dropped, the message is delivered without them', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
h.register('PacketAck').subscribe(lambda m: got.append(len(m['Packets']) if 'Packets' in m.blocks else 0))
d, s = dispatcher(handler=h)
for i, n in enumerate((1, 127, 128, 255)):
    receive(d, s, packet(i + 1, packet_ack(range(1000, 1000 + n))))
expect(got, [1, 127, 128, 255], 'block instances delivered')
''')

bug('c05-quaternion-sign', 'C05', [
    (L+'helpers.py', "            return (-quaternion[0], -quaternion[1], -quaternion[2])        \n", "            return (-quaternion[0], -quaternion[1], quaternion[2])        \n"),
    ], 'a rotation with a negative w',
    'rotations given with a negative real part turn another way at the other end', r'''
from kit import *
from pyogp.lib.base.message.data_packer import DataPacker
from pyogp.lib.base.message.msgtypes import MsgType
p = DataPacker()
expect(struct.unpack('<3f', p.pack_data((0.5, -0.5, 0.5, -0.5), MsgType.MVT_LLQuaternion)), (-0.5, 0.5, -0.5), 'a rotation with negative w on the wire')
''')

bug('c06-partial-on-bad-count', 'C06', [
    (L+'message/udpdeserializer.py', "                        if (decode_pos + data_size) > templen:\n                            logger.warning(\"ERROR: trying to read %s from a buffer of len %s in %s\" % (str(decode_pos + var_size), str(len(data)), packet.name))\n                            return None\n",
     "                        if (decode_pos + data_size) > templen:\n                            logger.warning(\"ERROR: trying to read %s from a buffer of len %s in %s\" % (str(decode_pos + var_size), str(len(data)), packet.name))\n                            #we do have what came before\n                            packet.blocks = msg_data.blocks\n                            return packet\n"),
    ], 'a datagram cut right before the length of a variable field',
    'a truncated datagram is delivered with what came before the cut', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
h.register('AgentAlertMessage').subscribe(lambda m: got.append(m.name))
d, s = dispatcher(handler=h)
full = packet(1, '\xff\xff\x00\x87' + 'u' * 16 + '\1' + '\x05hello')
for n in range(1, len(full) + 1):
    try:
        receive(d, s, full[:n])
    except Exception, e:
        pass
expect(len(got), 1, 'deliveries out of all prefixes of a datagram')
''')

bug('c06-template-left', 'C06', [
    (L+'message/udpdeserializer.py', "        self.current_template = self.__decode_header(header)\n        if self.current_template != None:\n            return True\n",
     "        template = self.__decode_header(header)\n        if template != None:\n            self.current_template = template\n            return True\n\n        if len(header) < 4 and getattr(self, 'current_template', None) != None:\n            #one of the short ones, as the one before\n            return True\n"),
    ], 'a short datagram with an unknown message number after a good one',
    'an unknown message is parsed as the one received before it', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
h.register('CompletePingCheck').subscribe(lambda m: got.append(m['PingID'][0]['PingID']))
d, s = dispatcher(handler=h)
receive(d, s, packet(1, pong(1)))
for body in ('\xfa\x07', '\xf9\x08', '\xee\x01\x02'):
    try:
        receive(d, s, packet(2, body))
    except Exception, e:
        pass
expect(got, [1], 'delivered')
''')

bug('c01-unsent-number-reused', 'C01', [
    (L+'message/udpdispatcher.py', "            logger.warning(\"Error trying to serialize the following packet: %s\" % (packet))\n",
     "            if packet.packet_id == circuit.last_packet_out_id:\n                #its number is free again\n                circuit.last_packet_out_id -= 1\n\n            logger.warning(\"Error trying to send the following packet: %s\" % (packet))\n"),
    ], 'a reliable message whose send fails with a socket error, followed by another message',
    'the number of a message which could not be handed to the network is used again, though it is retransmitted', r'''
from kit import *
import errno, socket as real
d, s = dispatcher()
def fail(data, addr):
    s.on_send = None
    raise real.error(errno.ENOBUFS, 'No buffer space')
s.on_send = fail
d.send_reliable(ping_msg(1), host(), 3)
d.send_message(ping_msg(2), host())
d.process_acks()
expect(len(set([seq_of(x) for x, a in s.sent])), 2, 'distinct numbers of a message resent after a send error and the one after it')
''')

