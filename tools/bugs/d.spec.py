L = 'pyogp/lib/base/'

bug('c15-circuits-evicted', 'C15', [
    (L+'message/circuit.py', "        circuit = Circuit(host, packet_in_id)\n\n        self.circuit_map[(host.ip, host.port)] = circuit\n",
     "        if len(self.circuit_map) >= 16:\n            #do not let strangers fill our memory\n            for key, old in self.circuit_map.items():\n                if not old.unacked_packets and not old.acks:\n                    del self.circuit_map[key]\n                    break\n\n        circuit = Circuit(host, packet_in_id)\n\n        self.circuit_map[(host.ip, host.port)] = circuit\n"),
    ], 'more than 16 peers, one of the earlier ones having nothing outstanding',
    'the numbers of a peer start again when enough others have been heard from', r'''
from kit import *
d, k = dispatcher()
hosts = [host(('10.0.1.%d' % n, 13000)) for n in range(40)]
for r in range(2):
    for h in hosts:
        d.send_message(ping_msg(r), h)
expect([[seq_of(x) for x, a in k.sent if a == (h.ip, h.port)] for h in hosts], [[1, 2]] * 40, 'numbers used with each of 40 peers')
''')

bug('c03-acks-signed', 'C03', [
    (L+'message/udpdeserializer.py', "            acks = self.unpacker.unpack_data(data, MsgType.MVT_U8, msg_size)\n",
     "            acks = self.unpacker.unpack_data(data, MsgType.MVT_S8, msg_size)\n"),
    ], 'a datagram with more than 127 appended acks', 'more than 127 acks on one datagram are ignored', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
for n in range(130):
    d.send_reliable(ping_msg(n), host(), 3)
del k.sent[:]
receive(d, k, packet(1, pong(1), acks=range(1, 131)))
d.process_acks()
expect(len(k.sent), 0, 'retransmissions after 130 were acked at once')
''')

bug('c10-skip-undef', 'C10', [
    (L+'event_queue.py', "                                        for variable in block_data:\n",
     "                                        for variable in block_data:\n\n                                            if block_data[variable] is None:\n                                                #not defined\n                                                continue\n"),
    ], 'a template event with an undefined value', 'values which are undefined are left out of the message', r'''
from kit import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
q = EventQueueClient(None, settings=quiet(), message_handler=MessageHandler(quiet()), host=host())
got = []
q.message_handler.register('PacketAck').subscribe(lambda m: got.append([sorted(b.vars) for b in m.blocks['Packets']]))
q._parse_result({'id': 1, 'events': [{'message': 'PacketAck', 'body': {'Packets': [{'ID': 1, 'More': None}]}}]})
expect(got, [[['ID', 'More']]], 'fields of the event')
''')

bug('c10-skip-empty-body', 'C10', [
    (L+'event_queue.py', "                            new_message = Message(message['message'])\n",
     "                            if not message['body']:\n                                #there is nothing in it\n                                continue\n\n                            new_message = Message(message['message'])\n"),
    ], 'an event with an empty body', 'events without any content are not dispatched', r'''
from kit import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
q = EventQueueClient(None, settings=quiet(), message_handler=MessageHandler(quiet()), host=host())
got = []
q.message_handler.register('Nothing').subscribe(lambda m: got.append(m.name))
q._parse_result({'id': 1, 'events': [{'message': 'Nothing', 'body': {}}]})
expect(got, ['Nothing'], 'events dispatched')
''')

bug('c10-stopped-batch', 'C10', [
    (L+'event_queue.py', "                for packet in parsed_data:\n", "                for packet in parsed_data:\n                    if self.stopped and packet is not parsed_data[0]:\n                        #we are leaving\n                        break\n"),
    ], 'the queue is stopped while a batch of several events is in flight or being dispatched',
    'the rest of a batch is dropped (and acked) when the queue is stopped', r'''
from kit import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
class Cap(object):
    name = 'EventQueueGet'
    def POST(self, data):
        q.stop()
        return {'id': 1, 'events': [{'message': 'E', 'body': {'n': n}} for n in range(3)]}
q = EventQueueClient(Cap(), settings=quiet(), message_handler=MessageHandler(quiet()), host=host())
got = []
q.message_handler.register('E').subscribe(lambda m: got.append(m['Message_Data'][0]['n']))
q.start()
expect(got, [0, 1, 2], 'events of the batch which arrived at the stop')
''')

bug('c11-fixed-rate', 'C11', [
    (L+'event_queue.py', "            self._running = True\n\n            while not self.stopped:\n", "            self._running = True\n            import time\n            next_poll = time.time() + self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL\n\n            while not self.stopped:\n"),
    (L+'event_queue.py', "                    api.sleep(self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL)\n",
     "                    api.sleep(max(0, next_poll - time.time()))\n                    next_poll = time.time() + self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL\n"),
    ], 'a poll (or its handlers) that takes time', 'the interval is counted from the start of the last poll, not its end', r'''
from kit import *
import time
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
clock = [100.0]
time.time = lambda: clock[0]
s = quiet()
s.REGION_EVENT_QUEUE_POLL_INTERVAL = 10
naps = []
def nap(n):
    naps.append(n)
    clock[0] += n
Api.on_sleep = nap
class Cap(object):
    name = 'EventQueueGet'
    posts = 0
    def POST(self, data):
        Cap.posts += 1
        clock[0] += 25
        if Cap.posts == 3:
            q.stop()
        return {'id': 1, 'events': []}
q = EventQueueClient(Cap(), settings=s, message_handler=MessageHandler(s), host=host())
q.start()
expect(min(naps) >= 10, True, 'time between the end of a poll and the next')
''')

bug('c12-empty-list', 'C12', [
    (L+'caps.py', "        if (type(payload) is ListType):\n", "        if not payload:\n            payload = {}\n\n        if (type(payload) is ListType):\n"),
    ], 'an empty list as payload', 'an empty list is sent as an empty map', r'''
from kit import *
from pyogp.lib.base.caps import Capability
class Answer(object):
    headers = {'Content-Type': 'application/llsd+xml'}
    body = '<?xml version="1.0" ?><llsd><integer>4</integer></llsd>'
class Rest(object):
    def POST(self, url, data, headers={}):
        self.got = data
        return Answer()
r = Rest()
Capability('x', 'http://localhost/', restclient=r, settings=quiet()).POST([])
expect('array' in r.got, True, 'an empty list is posted as a list')
''')

bug('c12-answer-reused', 'C12', [
    (L+'network/stdlib_client.py', "class StdLibClient(object):\n", "class StdLibClient(object):\n    last = {}\n"),
    (L+'caps.py', "        data = deserializer.deserialize(response.body)\n\n        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING:",
     "        last = getattr(self.restclient, 'last', {})\n        if last.get('body') == response.body:\n            #the same again, no need to parse it\n            data = last['data']\n        else:\n            data = deserializer.deserialize(response.body)\n            last['body'] = response.body\n            last['data'] = data\n\n        if self.settings.LOG_VERBOSE and self.settings.ENABLE_CAPS_LLSD_LOGGING:"),
    ], 'two GETs with the same answer, the caller changing the data returned by the first',
    'the same object is returned for equal answers, so changes of one caller show up at another', r'''
from kit import *
from pyogp.lib.base.caps import Capability
from pyogp.lib.base.network.stdlib_client import StdLibClient
class Answer(object):
    headers = {'Content-Type': 'application/llsd+xml'}
    body = '<?xml version="1.0" ?><llsd><map><key>a</key><integer>4</integer></map></llsd>'
class Rest(StdLibClient):
    def GET(self, url, headers={}):
        return Answer()
c = Capability('x', 'http://localhost/', restclient=Rest(), settings=quiet())
c.GET()['b'] = 5
expect(c.GET(), {'a': 4}, 'answer to the second GET')
''')

bug('c12-query-dropped', 'C12', [
    (L+'caps.py', "        self.public_url = public_url\n", "        self.public_url = public_url.split('#')[0]\n        if self.public_url.endswith('?') or self.public_url.endswith('/'):\n            self.public_url = self.public_url[:-1]\n"),
    ], 'a capability whose url ends with a slash', 'the slash at the end of a url is dropped', r'''
from kit import *
from pyogp.lib.base.caps import Capability
class Answer(object):
    headers = {'Content-Type': 'application/llsd+xml'}
    body = '<?xml version="1.0" ?><llsd><integer>4</integer></llsd>'
class Rest(object):
    def GET(self, url, headers={}):
        self.got = url
        return Answer()
r = Rest()
Capability('x', 'http://localhost/cap/1/', restclient=r, settings=quiet()).GET()
expect(r.got, 'http://localhost/cap/1/', 'url asked for')
''')

bug('c16-deadline-once', 'C16', [
    (L+'helpers.py', "        # let's be nice and enabled a kill switch\n        self.enabled = False\n", "        # let's be nice and enabled a kill switch\n        self.enabled = False\n        self.end = time.time() + self.duration\n"),
    (L+'helpers.py', "        while self.enabled and now - start < self.duration:\n", "        while self.enabled and now < self.end:\n"),
    ], 'a Wait object which is run again', 'a wait that is run again returns at once', r'''
from kit import *
from pyogp.lib.base.helpers import Wait
import pyogp.lib.base.helpers as helpers
clock = [1000.0]
class Time(object):
    def time(self):
        return clock[0]
helpers.time = Time()
def nap(n):
    clock[0] += 0.25
Api.on_sleep = nap
w = Wait(3)
t = clock[0]
w.run()
expect(clock[0] - t >= 3, True, 'the second wait takes its time')
''')

bug('c16-capped', 'C16', [
    (L+'helpers.py', "        self.duration = int(duration)\n", "        self.duration = int(duration) % 3600\n"),
    ], 'a wait of an hour or more', 'whole hours are dropped from the duration of a wait', r'''
from kit import *
from pyogp.lib.base.helpers import Wait
import pyogp.lib.base.helpers as helpers
clock = [1000.0]
class Time(object):
    def time(self):
        return clock[0]
helpers.time = Time()
def nap(n):
    clock[0] += 25
Api.on_sleep = nap
Wait(3605)
expect(clock[0] >= 4605, True, 'a wait of an hour')
''')

bug('c18-skipped-decoded', 'C18', [
    (L+'message/udpdeserializer.py', "                    logger.debug('Received packet : %s (Skipping)' % (self.current_template.name))\n",
     "                    logger.debug('Received packet : %s (Skipping)%s' % (self.current_template.name, self.__decode_data(msg_buff).data()))\n"),
    ], 'LOG_VERBOSE, ENABLE_UDP_LOGGING and LOG_SKIPPED_PACKETS on, and a reliable message nobody subscribed to which is truncated or malformed',
    'with those logging settings an unsubscribed message which can not be decoded is not acked', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
def acked(verbose):
    s = quiet()
    s.LOG_VERBOSE = s.ENABLE_UDP_LOGGING = s.LOG_SKIPPED_PACKETS = verbose
    s.PROXY_LOGGING = False
    d, k = dispatcher(settings=s, handler=MessageHandler(quiet()))
    try:
        receive(d, k, packet(5, '\x01\x07', flags=0x40))
    except Exception:
        pass
    d.process_acks()
    return [acks_in(x) for x, a in k.sent]
expect(acked(True), acked(False), 'acks with and without logging')
''')

bug('c07-equal-merged', 'C07', [
    (L+'events.py', "        self.subscribers.append( ( handler, args, kwargs) )\n", "        if kwargs and (handler, args, kwargs) in self.subscribers:\n            #it is there already\n            return self\n        self.subscribers.append( ( handler, args, kwargs) )\n"),
    ], 'the same handler subscribed twice to a message with the same keyword arguments', 'a subscription equal to another is dropped', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
def note(m, tag=0):
    got.append(tag)
for n in range(2):
    h.register('StartPingCheck').subscribe(note, tag=1)
h.handle(ping_msg(1))
expect(got, [1, 1], 'calls of a handler which was subscribed twice')
''')

bug('c07-unsub-all-equal', 'C07', [
    (L+'events.py', "            self.subscribers.remove((handler, args, kwargs))\n", "            self.subscribers.remove((handler, args, kwargs))\n            while (handler, args, kwargs) in self.subscribers:\n                self.subscribers.remove((handler, args, kwargs))\n"),
    ], 'two equal subscriptions, one of them removed', 'removing one of several equal subscriptions removes them all', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
def note(m):
    got.append(1)
for n in range(2):
    h.register('StartPingCheck').subscribe(note)
h.register('StartPingCheck').unsubscribe(note)
h.handle(ping_msg(1))
expect(got, [1], 'calls of a handler which was subscribed twice and removed once')
''')

bug('c14-idle-unhandled', 'C14', [
    (L+'message/message_handler.py', "            handler = self.handlers[message_name]\n            return True\n", "            handler = self.handlers[message_name]\n            #the last subscriber may have gone\n            return len(handler) > 0 or not self.settings.ENABLE_DEFERRED_PACKET_PARSING\n"),
    (L+'message/udpdispatcher.py', "                if send_flags & PackFlags.LL_RELIABLE_FLAG:\n", "                if send_flags & PackFlags.LL_RELIABLE_FLAG and not (self.udp_deserializer.current_template and self.message_handler.handlers.has_key(self.udp_deserializer.current_template.name)):\n"),
    ], 'a reliable message whose only subscriber has unsubscribed', 'reliable messages nobody subscribes to any more are not acked', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
f = lambda m: None
d.message_handler.register('StartPingCheck').subscribe(f)
d.message_handler.register('StartPingCheck').unsubscribe(f)
receive(d, k, packet(5, ping(1), flags=0x40))
d.process_acks()
expect([acks_in(x) for x, a in k.sent], [[5]], 'acks after the subscriber left')
''')

bug('c17-missing-block-empty', 'C17', [
    (L+'message/udpserializer.py', "        block_list = message_data.get_block(template_block.name)\n", "        block_list = message_data.blocks.get(template_block.name, [])\n"),
    ], 'a message which lacks a single or fixed-count block of its template', 'a message which lacks a block is sent without it: a partial datagram', r'''
from kit import *
d, k = dispatcher()
d.send_message(Message('CompletePingCheck'), host())
expect([x for x, a in k.sent], [], 'datagrams for a message without its block')
''')

bug('c05-data-any-block', 'C05', [
    (L+'message/udpdeserializer.py', "                    if variable.type == MsgType.MVT_VARIABLE and variable.name != 'Data':\n", "                    if variable.type == MsgType.MVT_VARIABLE and (variable.name != 'Data' or len(block.variables) > 3):\n"),
    ], 'binary "Data" ending in NULs in a block with more than three fields', 'binary data loses the NULs at its end', r'''
from kit import *
from pyogp.lib.base.message.template_dict import TemplateDictionary
from pyogp.lib.base.message.msgtypes import MsgType
import pyogp.lib.base.message.udpdeserializer as U
from pyogp.lib.base.message.message_handler import MessageHandler
t = TemplateDictionary()
found = [(x, b) for x in t.message_templates.values() for b in x.blocks for v in b.variables if v.name == 'Data' and v.type == MsgType.MVT_VARIABLE and len(b.variables) > 3]
from pyogp.lib.base.message.msgtypes import sizeof
d, k = dispatcher(handler=MessageHandler(quiet()))
for x, blk in sorted(found, key=lambda p: p[0].name):
    if not d.udp_serializer.message_xml.validate_udp_msg(x.name):
        continue
    got = []
    d.message_handler.register(x.name).subscribe(lambda m: got.append(m.blocks[blk.name][0]['Data']))
    body = ''
    for b in x.blocks:
        n = b.block_type == 2 and b.number or 1
        import pyogp.lib.base.message.msgtypes as T
        if b.block_type == T.MsgBlockType.MBT_VARIABLE:
            body += '\x01'
        if b.block_type == T.MsgBlockType.MBT_MULTIPLE:
            n = b.number
        else:
            n = 1
        for i in range(n):
            for v in b.variables:
                if v.type == MsgType.MVT_VARIABLE:
                    raw = v.name == 'Data' and 'ab\0\0' or 'cd\0'
                    body += struct.pack({1: 'B', 2: '<H', 4: '<I'}[v.size], len(raw)) + raw
                elif v.type == MsgType.MVT_FIXED:
                    body += 'f' * v.size
                else:
                    body += '\0' * sizeof(v.type)
    receive(d, k, packet(5, x.msg_num_hex + body))
    expect(got, ['ab\0\0'], 'data of ' + x.name)
''')

bug('c08-batch-of-20', 'C08', [
    (L+'message_manager.py', "            while len(self.outgoing_queue) > 0:                \n                (packet, reliable) = self.outgoing_queue.pop(0)\n",
     "            for n in xrange(20):\n                if not self.outgoing_queue:\n                    break\n                (packet, reliable) = self.outgoing_queue.pop(0)\n"),
    ], 'more than 20 messages waiting when a datagram arrives', 'only 20 of the waiting messages are sent after a datagram', r'''
from kit import *
m, k = manager()
for n in range(30):
    m.enqueue_message(ping_msg(n))
k.inbox.append((packet(1, ping(1)), A))
k.inbox.append(lambda: expect(len(k.sent), 30, 'messages sent after one datagram'))
m.start_monitors()
run()
''')


bug('c05-body-cached', 'C05', [
    (L+'message/udpserializer.py', "        for block in self.current_template.get_blocks():\n            packed_block, block_size = self.build_block(block, context)\n            msg_buffer += packed_block\n            bytes += block_size\n",
     "        body = getattr(context, 'packed_body', None)\n        if body is None:\n            body = ''\n            for block in self.current_template.get_blocks():\n                packed_block, block_size = self.build_block(block, context)\n                body += packed_block\n                bytes += block_size\n            context.packed_body = body\n        msg_buffer += body\n"),
    ], 'the same message object sent again with other values in it', 'a message that is sent again is sent with the values it had the first time', r'''
from kit import *
d, k = dispatcher()
m = pong_msg(1)
d.send_message(m, host())
m.blocks['PingID'][0].vars['PingID'].data = 2
d.send_message(m, host())
expect([ord(x[-1]) for x, a in k.sent], [1, 2], 'values of a message sent twice')
''')
