L = 'pyogp/lib/base/'

bug('c01-restart-resets', 'C01', [
    (L+'message/circuit.py', "        if packet.reliable == True:\n            self.collect_ack(packet.packet_id)\n",
     "        if packet.packet_id == 1 and self.last_packet_in_id > 1:\n            #the peer has restarted, so do we\n            self.last_packet_out_id = 0\n        self.last_packet_in_id = packet.packet_id\n\n        if packet.reliable:\n            self.collect_ack(packet.packet_id)\n"),
    ], 'the first packet of a peer arrives again (duplicated or resent) after later ones',
    'a late copy of packet 1 is taken for a restart of the peer, and numbers start at 1 again', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
d.message_handler.register('StartPingCheck').subscribe(lambda m: None)
for n, seq in enumerate((1, 2, 3, 1)):
    receive(d, k, packet(seq, ping(n)))
    d.send_message(ping_msg(n), host())
expect([seq_of(x) for x, a in k.sent], [1, 2, 3, 4], 'numbers used after packet 1 came twice')
''')

bug('c01-nested-number', 'C01', [
    (L+'message/udpdispatcher.py', "        # enable monitoring of outgoing packets\n        if self.settings.HANDLE_OUTGOING_PACKETS:\n            self.message_handler.handle(packet)\n\n        #use circuit manager to get the circuit to send on\n        circuit = self.find_circuit(host)\n\n        if reliable == True:",
     "        #use circuit manager to get the circuit to send on\n        circuit = self.find_circuit(host)\n\n        # enable monitoring of outgoing packets\n        if self.settings.HANDLE_OUTGOING_PACKETS:\n            out_id = circuit.last_packet_out_id\n            self.message_handler.handle(packet)\n            circuit.last_packet_out_id = out_id\n\n        if reliable == True:"),
    ], 'an outgoing handler which sends a message itself (or yields while another coroutine does)',
    'the number used inside the outgoing handler is used again', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
s = quiet()
s.HANDLE_OUTGOING_PACKETS = True
d, k = dispatcher(settings=s, handler=MessageHandler(s))
d.message_handler.register('StartPingCheck').subscribe(lambda m: d.send_message(pong_msg(7), host()))
d.send_message(ping_msg(1), host())
d.send_message(pong_msg(2), host())
expect(sorted(seq_of(x) for x, a in k.sent), [1, 2, 3], 'numbers used with an outgoing handler that sends')
''')

bug('c02-flood-limit', 'C02', [
    (L+'message/udpdispatcher.py', "            for unacked_packet in circuit.unacked_packets.values():\n",
     "            #do not flood the peer\n            for unacked_packet in circuit.unacked_packets.values()[:100]:\n"),
    ], 'more than 100 reliable messages to one peer outstanding at the same time',
    'only 100 of the outstanding messages are retransmitted in a round', r'''
from kit import *
d, k = dispatcher()
for n in range(130):
    d.send_reliable(ping_msg(n), host(), 0)
del k.sent[:]
d.process_acks()
expect(len(k.sent), 130, 'retransmissions in the round after 130 reliable messages')
''')

bug('c02-acked-by-number-range', 'C02', [
    (L+'message/udpdispatcher.py', "            for unacked_packet in circuit.unacked_packets.values():\n",
     "            for unacked_packet in circuit.unacked_packets.values():\n\n                if circuit.last_packet_out_id - unacked_packet.packet_id > 300:\n                    #too old to be of any use\n                    circuit.ack_reliable_packet(unacked_packet.packet_id)\n                    continue\n"),
    (L+'message/udpdispatcher.py', "        for circuit in self.circuit_manager.unacked_circuits.values():\n", "        for circuit in list(self.circuit_manager.unacked_circuits.values()):\n"),
    ], 'a reliable message with more than 300 later ones to the same peer before its next round',
    'an old outstanding message is dropped instead of retransmitted', r'''
from kit import *
d, k = dispatcher()
d.send_reliable(ping_msg(1), host(), 2)
for n in range(310):
    d.send_message(pong_msg(n % 256), host())
del k.sent[:]
d.process_acks()
d.process_acks()
d.process_acks()
expect([(seq_of(x), ord(x[0]) & 0x20) for x, a in k.sent], [(1, 0x20)] * 2, 'retransmissions of a message 310 others were sent after')
''')

bug('c03-final-count', 'C03', [
    (L+'message/circuit.py', "        if packet_id in self.unacked_packets:\n            del self.unacked_packets[packet_id]\n            self.unack_packet_count -= 1\n\n        if packet_id in self.final_retry_packets:\n            del self.final_retry_packets[packet_id]\n            self.final_packet_count -= 1\n",
     "        for waiting in (self.unacked_packets, self.final_retry_packets):\n            if packet_id in waiting:\n                del waiting[packet_id]\n                self.unack_packet_count -= 1\n"),
    ], 'the ack of a message arrives after its last retransmission',
    'an ack which arrives after the budget was spent lowers the count of outstanding messages', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
d.send_reliable(ping_msg(1), host(), 1)
d.process_acks()
d.send_reliable(ping_msg(2), host(), 5)
receive(d, k, packet(1, packet_ack([1])))
c = d.circuit_manager.get_circuit(host())
expect((c.unack_packet_count, sorted(c.unacked_packets)), (1, [2]), 'outstanding count after a late ack')
''')

bug('c03-acks-of-resent', 'C03', [
    (L+'message/circuit.py', "        for ack_packet_id in packet.acks:\n            self.ack_reliable_packet(ack_packet_id)\n",
     "        #(those of a resent packet have been handled with the first copy)\n        if not packet.send_flags & PackFlags.LL_RESENT_FLAG:\n            for ack_packet_id in packet.acks:\n                self.ack_reliable_packet(ack_packet_id)\n"),
    ], 'the first copy of a datagram with appended acks is lost and only the resent one arrives',
    'acks appended to a resent datagram are ignored', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
d.send_reliable(ping_msg(1), host(), 5)
receive(d, k, packet(1, ping(1), flags=0x40 | 0x20, acks=[1]))
c = d.circuit_manager.get_circuit(host())
expect(sorted(c.unacked_packets), [], 'outstanding after a resent datagram acked it')
''')

bug('c04-only-newer', 'C04', [
    (L+'message/circuit.py', "        if packet.reliable == True:\n            self.collect_ack(packet.packet_id)\n",
     "        #what is older has been acked before\n        if packet.reliable == True and packet.packet_id + 16 > self.last_packet_in_id:\n            self.collect_ack(packet.packet_id)\n        self.last_packet_in_id = max(self.last_packet_in_id, packet.packet_id)\n"),
    ], 'a reliable datagram delayed until 16 later ones have arrived',
    'reliable datagrams far behind the newest one are not acked', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
d.message_handler.register('StartPingCheck').subscribe(lambda m: None)
for n in range(2, 22):
    receive(d, k, packet(n, ping(n), flags=0x40))
receive(d, k, packet(1, ping(1), flags=0x40))
d.process_acks()
expect(sorted(sum([acks_in(x) for x, a in k.sent], [])), range(1, 22), 'acked after packet 1 came last')
''')

bug('c04-pending-dedupe', 'C04', [
    (L+'message/circuit.py', "        self.acks.append(packet_id)\n",
     "        if packet_id not in self.acks:\n            self.acks.append(packet_id)\n            #a peer which never hears from us is not going to read them all\n            del self.acks[:-500]\n"),
    ], 'more than 500 reliable datagrams of one peer pending between two rounds',
    'only the last 500 pending acks of a peer are sent', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
d.message_handler.register('StartPingCheck').subscribe(lambda m: None)
for n in range(1, 521):
    receive(d, k, packet(n, ping(n % 256), flags=0x40))
d.process_acks()
expect(sorted(set(sum([acks_in(x) for x, a in k.sent], []))), range(1, 521), 'acked after 520 reliable datagrams')
''')

bug('c05-extra-header', 'C05', [
    (L+'message/udpdeserializer.py', "        decode_pos = PacketLayout.PACKET_ID_LENGTH + \\\n                   freq_bytes + \\\n                   offset\n",
     "        decode_pos = PacketLayout.PACKET_ID_LENGTH + freq_bytes\n        if not packet.send_flags & PackFlags.LL_ZERO_CODE_FLAG:\n            decode_pos += offset\n"),
    ], 'a zero-coded datagram with an extra header', 'the extra header of a zero-coded datagram is read as content', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
got = []
d.message_handler.register('StartPingCheck').subscribe(lambda m: got.append((m['PingID'][0]['PingID'], m['PingID'][0]['OldestUnacked'])))
receive(d, k, struct.pack('>BIB', 0x80, 1, 3) + 'xyz' + '\x01\x07\x09\x00\x03')
expect(got, [(7, 9)], 'content behind an extra header')
''')

bug('c05-last-block-wins', 'C05', [
    (L+'message/udpdeserializer.py', "                    decode_pos += var_size\n\n\n",
     "                    decode_pos += var_size\n                    if variable.type == MsgType.MVT_FIXED and variable.size > 32:\n                        #padded to their full size\n                        var_data.data = unpacked_data.rstrip('\\x00')\n\n"),
    ], 'a fixed-length field longer than 32 bytes which ends with zero bytes (custom template)',
    'trailing zero bytes of long fixed-length fields are dropped', r'''
from kit import *
import os, tempfile
from pyogp.lib.base.message.message_handler import MessageHandler
tmp = tempfile.NamedTemporaryFile(suffix='.msg')
tmp.write("""version 2.0
{
    Blob Low 7 NotTrusted Unencoded
    {
        Part Single
        { Body Fixed 40 }
    }
}
""")
tmp.flush()
try:
    d, k = dispatcher(handler=MessageHandler(quiet()), message_template=open(tmp.name))
except Exception, e:
    import traceback; traceback.print_exc()
    raise
got = []
d.message_handler.register('Blob').subscribe(lambda m: got.append(m['Part'][0]['Body']))
body = 'abc' * 10 + '\0' * 10
receive(d, k, packet(1, '\xff\xff\x00\x07' + body))
expect(got, [body], 'a fixed field of 40 bytes')
''')

bug('c06-gives-up', 'C06', [
    (L+'message_manager.py', "            msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)\n            try:\n",
     "            msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)\n            if msg_size > 0:\n                failed = 0\n            else:\n                failed = self.__dict__.get('_failed', 0) + 1\n            self._failed = failed\n            if failed > 4:\n                logger.warning('The connection seems to be lost')\n                break\n            try:\n"),
    (L+'message_manager.py', "            api.sleep(0)\n", "            api.sleep()\n"),
    ], 'five receive errors (or empty datagrams) in a row', 'the session ends after five failed receives in a row', r'''
from kit import *
import kit
from pyogp.lib.base.message.message_handler import MessageHandler
m, k = manager()
got = []
m.message_handler.register('StartPingCheck').subscribe(lambda p: got.append(p['PingID'][0]['PingID']))
k.inbox = [(packet(1, ping(1)), A)] + [kit._s.error(errno.ECONNREFUSED, 'refused') for n in range(6)] + [(packet(2, ping(2)), A)]
m.start_monitors()
run()
expect(got, [1, 2], 'delivered around six receive errors in a row')
''')

bug('c06-long-datagram', 'C06', [
    (L+'network/net.py', "        buf = 10000\n", "        #nothing larger than this comes from a simulator\n        buf = 1500\n"),
    ], 'a datagram of more than 1500 bytes', 'long datagrams are cut off at 1500 bytes and so their content is lost or wrong', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
real = k.recvfrom
def recvfrom(n):
    data, addr = real(n)
    return data[:n], addr
k.recvfrom = recvfrom
got = []
d.message_handler.register('PacketAck').subscribe(lambda m: None)
d.message_handler.register('CoarseLocationUpdate').subscribe(lambda m: got.append(len(m.blocks['AgentData'])))
body = '\xff\x06' + '\x01abc' + '\0\0\0\0' + chr(120) + 'u' * 16 * 120
receive(d, k, packet(1, body))
expect(got, [120], 'agents in a long message')
''')

bug('c07-nested', 'C07', [
    (L+'events.py', "        for instance, inner_args, kwargs in self.subscribers[:]:\n\n            try:\n",
     "        self.pending = self.subscribers[:]\n        while self.pending:\n\n            instance, inner_args, kwargs = self.pending.pop(0)\n\n            try:\n"),
    (L+'events.py', "        self.subscribers = []\n", "        self.subscribers, self.pending = [], []\n"),
    ], 'a message dispatched while a handler of the same name runs (nested or in another coroutine)',
    'the remaining subscribers of the outer message are skipped', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
r = h.register('StartPingCheck')
def f(m):
    got.append(('f', m['PingID'][0]['PingID']))
    if m['PingID'][0]['PingID'] == 1:
        h.handle(ping_msg(2))
r.subscribe(f)
r.subscribe(lambda m: got.append(('g', m['PingID'][0]['PingID'])))
h.handle(ping_msg(1))
expect(got, [('f', 1), ('f', 2), ('g', 2), ('g', 1)], 'nested dispatch')
''')

bug('c07-handler-identity', 'C07', [
    (L+'message/message_handler.py', "        return self.handlers.setdefault(message_name, MessageHandledNotifier(message_name, self.settings))\n",
     "        handler = self.handlers.get(message_name)\n        if not handler:\n            handler = self.handlers[message_name] = MessageHandledNotifier(message_name, self.settings)\n        return handler\n"),
    ], 'a name registered again before the first registration has a subscriber, both used to subscribe',
    'a notifier without subscribers is replaced, what is subscribed to it later gets nothing', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
a = h.register('StartPingCheck')
b = h.register('StartPingCheck')
a.subscribe(lambda m: got.append('a'))
b.subscribe(lambda m: got.append('b'))
h.handle(ping_msg(1))
expect(got, ['a', 'b'], 'handlers called which were subscribed to two registrations')
''')

bug('c08-same-object', 'C08', [
    (L+'message_manager.py', "        if now:\n            self.outgoing_queue.insert(0, (message, reliable))\n        else:\n",
     "        if now:\n            self.outgoing_queue.insert(0, (message, reliable))\n        elif (message, reliable) not in self.outgoing_queue[-1:]:\n"),
    ], 'the same message object queued twice in a row', 'a message which is the last one waiting already is not queued again', r'''
from kit import *
m, k = manager()
p = ping_msg(1)
m.enqueue_message(p)
m.enqueue_message(p)
m.enqueue_message(p, reliable=True)
k.inbox = [(packet(1, ping(1)), A)]
m.start_monitors()
run()
expect([ord(x[0]) & 0x40 for x, a in k.sent][:3], [0, 0, 0x40], 'sent after one object was queued three times')
''')

bug('c08-reliable-first', 'C08', [
    (L+'message_manager.py', "                (packet, reliable) = self.outgoing_queue.pop(0)\n",
     "                #a full queue is best served with what has to arrive\n                at = 0\n                if len(self.outgoing_queue) > 20:\n                    at = [entry[1] for entry in self.outgoing_queue].index(max([entry[1] for entry in self.outgoing_queue]))\n                (packet, reliable) = self.outgoing_queue.pop(at)\n"),
    ], 'more than 20 messages waiting, reliable and unreliable ones mixed', 'reliable messages overtake others once the queue is long', r'''
from kit import *
m, k = manager()
for n in range(25):
    m.enqueue_message(ping_msg(n), reliable=n % 5 == 4)
k.inbox = [(packet(1, ping(1)), A)]
m.start_monitors()
run()
expect([ord(x[7]) for x, a in k.sent][:25], range(25), 'order in which 25 queued messages were sent')
''')

bug('c09-final-needs-result', 'C09', [
    (L+'event_queue.py', "            if self.last_id != -1:\n                # Need to ack",
     "            if self.last_id != -1 and self.result:\n                # Need to ack"),
    ], 'the last poll before the stop was answered with an empty (undef) result', 'no final done request if the last poll had no result', r'''
from kit import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
class Cap(object):
    name = 'EventQueueGet'
    posts = []
    def POST(self, data):
        self.posts.append(data)
        if len(self.posts) == 1:
            return {'id': 5, 'events': []}
        q.stop()
        return None
q = EventQueueClient(Cap(), settings=quiet(), message_handler=MessageHandler(quiet()), host=host())
q.start()
expect(Cap.posts[-1], {'ack': 5, 'done': True}, 'the last request')
''')

bug('c09-stop-drains', 'C09', [
    (L+'message_manager.py', "            while len(self.outgoing_queue) > 0:                \n",
     "            while len(self.outgoing_queue) > 0 and (reliable_left(self.outgoing_queue) or self._is_running):\n"),
    (L+'message_manager.py', "class MessageManager(object):\n", "def reliable_left(queue):\n    \"\"\" whether one of the queued messages has to arrive \"\"\"\n    for packet, reliable in queue:\n        if reliable:\n            return True\n    return False\n\nclass MessageManager(object):\n"),
    ], 'stopped while messages are waiting, none of which is reliable', 'what was queued before the stop is not sent unless something reliable is queued', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
m, k = manager()
def stop_now(p):
    m.enqueue_message(pong_msg(8))
    m.stop_monitors()
m.message_handler.register('StartPingCheck').subscribe(stop_now)
k.inbox = [(packet(1, ping(1)), A)]
m.start_monitors()
run()
expect([ord(x[7]) for x, a in k.sent], [8], 'sent of what was queued just before the stop in a handler')
''')

bug('c10-id-zero', 'C10', [
    (L+'event_queue.py', "                    if self.last_id != -1:\n                        self.data = {'ack':self.last_id}\n",
     "                    if self.last_id > 0:\n                        self.data = {'ack':self.last_id}\n"),
    ], 'a batch with the id 0 or a negative one', 'a batch whose id is 0 is never acked, so it is delivered again', r'''
from kit import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
class Cap(object):
    name = 'EventQueueGet'
    posts = []
    def POST(self, data):
        self.posts.append(data)
        if len(self.posts) == 3:
            q.stop()
        return {'id': len(self.posts) - 1, 'events': []}
q = EventQueueClient(Cap(), settings=quiet(), message_handler=MessageHandler(quiet()), host=host())
q.start()
expect([p.get('ack') for p in Cap.posts], [None, 0, 1, 2], 'acked with each request')
''')

bug('c10-shared-block', 'C10', [
    (L+'event_queue.py', "                                    for block_data in message['body'][block_name]:                                       \n                                        block = Block(block_name)\n                                        new_message.add_block(block)\n",
     "                                    block = Block(block_name)\n                                    new_message.add_block(block)\n                                    for block_data in message['body'][block_name]:\n                                        if block.vars and len(block_data) > 1:\n                                            block = Block(block_name)\n                                            new_message.add_block(block)\n"),
    ], 'a template event with several instances of a block which has a single field (or none)',
    'instances of a block with one field are merged into one', r'''
from kit import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
q = EventQueueClient(None, settings=quiet(), message_handler=MessageHandler(quiet()), host=host())
got = []
q.message_handler.register('PacketAck').subscribe(lambda m: got.append([b['ID'] for b in m.blocks['Packets']]))
q._parse_result({'id': 1, 'events': [{'message': 'PacketAck', 'body': {'Packets': [{'ID': 1}, {'ID': 2}, {'ID': 3}]}}]})
expect(got, [[1, 2, 3]], 'instances of a block with one field')
''')

bug('c11-retry-sooner', 'C11', [
    (L+'event_queue.py', "                    api.sleep(self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL)\n",
     "                    #the last one failed, have another go before it times out\n                    interval = self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL\n                    if self.result == {'id': self.last_id} and interval > 1:\n                        interval = 1\n                    api.sleep(interval)\n"),
    ], 'a poll fails with a poll interval of more than a second', 'a failed poll is repeated after one second whatever the interval', r'''
from kit import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
s = quiet()
s.REGION_EVENT_QUEUE_POLL_INTERVAL = 4
naps = []
Api.on_sleep = naps.append
class Cap(object):
    name = 'EventQueueGet'
    posts = []
    def POST(self, data):
        self.posts.append(data)
        if len(self.posts) == 4:
            q.stop()
        raise IOError('no')
q = EventQueueClient(Cap(), settings=s, message_handler=MessageHandler(s), host=host())
q.start()
expect(naps[:4], [4] * 4, 'seconds slept between failing polls')
''')

bug('c11-ack-on-change', 'C11', [
    (L+'event_queue.py', "                    if self.last_id != -1:\n                        self.data = {'ack':self.last_id}\n",
     "                    if self.last_id != -1 and self.result != None:\n                        self.data = {'ack':self.last_id}\n"),
    ], 'a poll answered with an empty (undef) result after a batch', 'the poll after an empty result acks nothing', r'''
from kit import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
class Cap(object):
    name = 'EventQueueGet'
    posts = []
    def POST(self, data):
        self.posts.append(data)
        if len(self.posts) == 3:
            q.stop()
        if len(self.posts) == 2:
            return None
        return {'id': 5, 'events': []}
q = EventQueueClient(Cap(), settings=quiet(), message_handler=MessageHandler(quiet()), host=host())
q.start()
expect([p.get('ack') for p in Cap.posts], [None, 5, 5, 5], 'acked with each request')
''')

bug('c12-body-4k', 'C12', [
    (L+'caps.py', "                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method=\"POST\")\n",
     "                #enough of it to tell what went wrong\n                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(2048), method=\"POST\")\n"),
    ], 'an error answer to a POST with a body of more than 2048 bytes', 'the body of error answers is cut off', r'''
from kit import *
import StringIO
from pyogp.lib.base.caps import Capability
from pyogp.lib.base.exc import HTTPError, ResourceError
class Rest(object):
    def POST(self, url, data, headers={}):
        raise HTTPError(500, 'no', StringIO.StringIO('e' * 5000))
try:
    Capability('x', 'http://localhost/', restclient=Rest(), settings=quiet()).POST({'a': 1})
    expect(0, 1, 'an error')
except ResourceError, e:
    expect(len(e.body), 5000, 'length of the body of the error')
''')

bug('c12-status-remembered', 'C12', [
    (L+'caps.py', "        self.name = name\n        self.public_url = public_url\n", "        self.name = name\n        self.public_url = public_url\n        self.gone = False\n"),
    (L+'caps.py', "        headers = {\"Content-type\" : content_type}\n        headers.update(custom_headers)  # give the user the ability to add headers \n\n        try:\n",
     "        headers = {\"Content-type\" : content_type}\n        headers.update(custom_headers)  # give the user the ability to add headers \n\n        if self.gone:\n            raise ResourceNotFound(self.public_url)\n\n        try:\n"),
    (L+'caps.py', "            if e.code==404:\n                raise ResourceNotFound(self.public_url)\n            else:\n                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method=\"GET\")\n",
     "            if e.code==404:\n                self.gone = True\n                raise ResourceNotFound(self.public_url)\n            else:\n                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method=\"GET\")\n"),
    ], 'a GET answered with 404 followed by a POST to the same capability', 'after one 404 to a GET, the server is not asked by POST any more', r'''
from kit import *
import StringIO
from pyogp.lib.base.caps import Capability
from pyogp.lib.base.exc import HTTPError, ResourceNotFound
class Answer(object):
    headers = {'Content-Type': 'application/llsd+xml'}
    body = '<?xml version="1.0" ?><llsd><integer>4</integer></llsd>'
class Rest(object):
    def GET(self, url, headers={}):
        raise HTTPError(404, 'no', StringIO.StringIO(''))
    def POST(self, url, data, headers={}):
        return Answer()
c = Capability('x', 'http://localhost/', restclient=Rest(), settings=quiet())
try:
    c.GET()
except ResourceNotFound:
    pass
try:
    got = c.POST({'a': 1})
except ResourceNotFound:
    got = 'not found'
expect(got, 4, 'the answer to a POST after a GET was not found')
''')

bug('c13-banned-unacked', 'C13', [
    (L+'message/udpdispatcher.py', "                send_flags = ord(msg_buf[0])\n",
     "                send_flags = ord(msg_buf[0])\n                template = self.udp_deserializer.current_template\n                if template != None and send_flags & PackFlags.LL_ZERO_CODE_FLAG and not self.udp_deserializer.message_xml.validate_udp_msg(template.name):\n                    send_flags = 0\n"),
    (L+'message/udpdispatcher.py', "            if recv_packet == None:\n", "            if recv_packet is None:\n"),
    ], 'a reliable zero-coded message which is not allowed over UDP arrives', 'a refused zero-coded datagram is not acked', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
from pyogp.lib.base.message.template_dict import TemplateDictionary
t = TemplateDictionary().get_template('TeleportFinish')
body = '\xff\xff' + '\x00\x01' + chr(t.msg_num)
receive(d, k, struct.pack('>BIB', 0xC0, 9, 0) + body + '\1' * 60)
d.process_acks()
expect(sum([acks_in(x) for x, a in k.sent], []), [9], 'acked after a message which may not come over UDP')
''')

bug('c13-case-of-flavor', 'C13', [
    (L+'message/udpserializer.py', "        if not self.message_xml.validate_udp_msg(self.current_template.name):\n",
     "        if not context.acks and not self.message_xml.validate_udp_msg(self.current_template.name):\n"),
    ], 'an HTTP-only message is sent while acks are owed to the peer', 'an HTTP-only message crosses UDP if acks ride along', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
d.message_handler.register('StartPingCheck').subscribe(lambda m: None)
receive(d, k, packet(1, ping(1), flags=0x40))
d.send_message(Message('EnableSimulator', Block('SimulatorInfo', Handle=1, IP='1.2.3.4', Port=13)), host())
expect([x[6:10] for x, a in k.sent], [], 'datagrams after an HTTP-only message')
''')

bug('c14-lazy-rounds', 'C14', [
    (L+'message_manager.py', "            #self.incoming_queue.append(recv_packet)\n            if self.udp_dispatcher.has_unacked():\n",
     "            #self.incoming_queue.append(recv_packet)\n            if self.udp_dispatcher.has_unacked() and (msg_size < 200 or recv_packet != None):\n"),
    (L+'message_manager.py', "            msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)\n",
     "            recv_packet = None\n            msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)\n"),
    ], 'a long datagram nobody is subscribed to arrives while something is outstanding', 'no acks and retransmissions after a long message nobody is subscribed to', r'''
from kit import *
m, k = manager()
m.enqueue_message(ping_msg(1), reliable=True)
body = '\xff\x06' + '\x01abc' + '\0\0\0\0' + chr(60) + 'u' * 16 * 60
k.inbox = [(packet(1, ping(1)), A), (packet(2, body), A)]
m.start_monitors()
seen = []
def on_empty():
    seen.append([ord(x[0]) & 0x20 for x, a in k.sent])
    m.stop_monitors()
k.on_empty = on_empty
run()
expect(seen, [[0, 0x20]], 'sent and resent when the second datagram had been processed')
''')

bug('c14-unparsed-dedupe', 'C14', [
    (L+'message/udpdispatcher.py', "                send_flags = ord(msg_buf[0])\n",
     "                send_flags = ord(msg_buf[0])\n                if send_flags & PackFlags.LL_RESENT_FLAG and len(circuit.unacked_packets) > 0:\n                    send_flags = 0\n"),
    (L+'message/udpdispatcher.py', "            if recv_packet == None:\n", "            if recv_packet is None:\n"),
    ], 'a resent reliable datagram nobody is subscribed to arrives while a message of ours is outstanding',
    'resent datagrams which are not parsed are not acked while something is outstanding', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
d.send_reliable(ping_msg(1), host(), 5)
receive(d, k, packet(5, ping(1), flags=0x40 | 0x20))
d.process_acks()
expect(sum([acks_in(x) for x, a in k.sent], []), [5], 'acked of a resent datagram nobody is subscribed to')
''')

bug('c15-eq-id-shared', 'C15', [
    (L+'event_queue.py', "        self._running = False     # this class controls this value\n        self.stopped = False     # client can pause the event queue\n        self.last_id = -1\n",
     "        self._running = False     # this class controls this value\n        self.stopped = False     # client can pause the event queue\n        #continue where we were if this is the same capability again\n        self.last_id = self.known.get(capability and capability.name, -1)\n"),
    (L+'event_queue.py', "                        self.last_id = self.result['id']\n",
     "                        self.last_id = self.result['id']\n                        self.known[self.cap.name] = self.last_id\n"),
    (L+'event_queue.py', "    Sample implementations: region.py\n    Tests: tests/test_event_queue.py\n    \"\"\"\n", "    Sample implementations: region.py\n    Tests: tests/test_event_queue.py\n    \"\"\"\n\n    known = {}\n"),
    ], 'a session with an event queue created after another one has received batches', 'a new event queue starts with the id of another one', r'''
from kit import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
class Cap(object):
    name = 'EventQueueGet'
    def __init__(self):
        self.posts = []
    def POST(self, data):
        self.posts.append(data)
        self.q.stop()
        return {'id': 5, 'events': []}
caps = []
for n in range(2):
    c = Cap()
    c.q = EventQueueClient(c, settings=quiet(), message_handler=MessageHandler(quiet()), host=host())
    c.q.start()
    caps.append(c)
expect([c.posts[0] for c in caps], [{}, {}], 'the first poll of each queue')
''')

bug('c15-busy-peer', 'C15', [
    (L+'message/udpdispatcher.py', "        for circuit in self.circuit_manager.circuit_map.values():\n\n            acks_this_packet = 0\n",
     "        waiting = [len(c.acks) for c in self.circuit_manager.circuit_map.values()]\n        for circuit in self.circuit_manager.circuit_map.values():\n\n            #the busy ones first, the others with the next round\n            if max(waiting) > 50 and 0 < len(circuit.acks) < 3:\n                waiting = [0]\n                continue\n\n            acks_this_packet = 0\n"),
    ], 'more than 50 acks are owed to one peer and one or two to another', 'a peer waits for its acks because another one is busy', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
d, k = dispatcher(handler=MessageHandler(quiet()))
d.message_handler.register('StartPingCheck').subscribe(lambda m: None)
for n in range(1, 61):
    receive(d, k, packet(n, ping(n), flags=0x40), A)
receive(d, k, packet(3, ping(3), flags=0x40), B)
d.process_acks()
expect([acks_in(x) for x, a in k.sent if a == B], [[3]], 'acks sent to the quiet peer')
''')

bug('c16-class-flag', 'C16', [
    (L+'helpers.py', "        # let's be nice and enabled a kill switch\n        self.enabled = False\n\n        self.run()\n",
     "        self.run()\n"),
    (L+'helpers.py', "        now = time.time()\n        start = now\n        self.enabled = True\n",
     "        now = time.time()\n        start = now\n        # let's be nice and enabled a kill switch\n        Wait.enabled = True\n"),
    (L+'helpers.py', "    def stop(self):\n\n        self.enabled = False\n", "    def stop(self):\n\n        Wait.enabled = False\n"),
    ], 'one of several concurrent waits is stopped', 'stopping one wait stops all of them', r'''
from kit import *
import time
from pyogp.lib.base.helpers import Wait
import pyogp.lib.base.helpers as helpers
clock = [0.0]
class Time(object):
    def time(self):
        return clock[0]
helpers.time = Time()
done = []
def nap(n):
    clock[0] += 0.5
    if clock[0] == 2.0:
        w = Wait.__new__(Wait)
        w.stop()
Api.on_sleep = nap
Wait(5)
expect(clock[0], 5.0, 'end of a wait of 5 seconds while another one was stopped')
''')

bug('c16-truncated-start', 'C16', [
    (L+'helpers.py', "        now = time.time()\n        start = now\n        self.enabled = True\n",
     "        now = time.time()\n        start = now - now % 1\n        self.enabled = True\n"),
    ], 'a wait which starts in the middle of a second', 'a wait returns up to a second early', r'''
from kit import *
from pyogp.lib.base.helpers import Wait
import pyogp.lib.base.helpers as helpers
clock = [1000.75]
class Time(object):
    def time(self):
        return clock[0]
helpers.time = Time()
def nap(n):
    clock[0] += 0.25
Api.on_sleep = nap
Wait(3)
expect(clock[0] >= 1003.75, True, 'a wait of 3 seconds takes 3 seconds')
''')

bug('c17-io-error-forgotten', 'C17', [
    (L+'message/udpdispatcher.py', "        except AssertionError:\n            pass\n\n        except Exception, error:\n",
     "        except AssertionError:\n            pass\n\n        except IOError, error:\n            #the connection is gone, nobody is going to ack it\n            logger.warning(\"Error trying to send %s: %s\" % (packet.name, error))\n            if reliable == True:\n                circuit.ack_reliable_packet(packet_id)\n            return\n\n        except Exception, error:\n"),
    ], 'the first send of a reliable message fails with a socket error', 'a reliable message whose first send failed is not retransmitted', r'''
from kit import *
import kit
d, k = dispatcher()
def broken(data, addr):
    k.on_send = None
    raise kit._s.error(errno.ENETUNREACH, 'unreachable')
k.on_send = broken
d.send_reliable(ping_msg(1), host(), 3)
d.process_acks()
expect([seq_of(x) for x, a in k.sent], [1], 'retransmitted after the first send failed')
''')

bug('c17-would-block', 'C17', [
    (L+'network/net.py', "        bytes = sock.sendto(send_buffer, (host.ip, host.port))\n",
     "        try:\n            bytes = sock.sendto(send_buffer, (host.ip, host.port))\n        except socket.error, error:\n            if error.args[0] in (errno.EAGAIN, errno.ENOBUFS):\n                #have another go with what fits\n                bytes = sock.sendto(send_buffer[:512], (host.ip, host.port))\n            else:\n                raise\n"),
    (L+'network/net.py', "import socket\nfrom logging", "import errno\nimport socket\nfrom logging"),
    ], 'the socket has no buffer space for a datagram longer than 512 bytes', 'a partial datagram is sent after a send failed for lack of buffer space', r'''
from kit import *
import kit
d, k = dispatcher()
def broken(data, addr):
    k.on_send = None
    raise kit._s.error(errno.ENOBUFS, 'no buffer space')
k.on_send = broken
m = Message('ChatFromViewer', Block('AgentData', AgentID='\1' * 16, SessionID='\2' * 16), Block('ChatData', Message='x' * 900, Type=1, Channel=0))
from pyogp.lib.base.datatypes import UUID
m = Message('PacketAck', *[Block('Packets', ID=n) for n in range(200)])
d.send_message(m, host())
expect([len(x) for x, a in k.sent if len(x) < 800], [], 'partial datagrams sent')
''')

bug('c18-proxy-only', 'C18', [
    (L+'message/udpdispatcher.py', "                if not self.settings.PROXY_LOGGING:\n                    logger.debug('Received packet",
     "                if self.settings.PROXY_LOGGING:\n                    return recv_packet\n                else:\n                    logger.debug('Received packet"),
    ], 'UDP logging and proxy logging both switched on', 'nothing is delivered while a proxy does the logging', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
s = quiet()
s.ENABLE_UDP_LOGGING = s.PROXY_LOGGING = True
d, k = dispatcher(settings=s, handler=MessageHandler(s))
got = []
d.message_handler.register('StartPingCheck').subscribe(lambda m: got.append(1))
receive(d, k, packet(1, ping(1)))
expect(len(got), 1, 'delivered with proxy logging')
''')

bug('c18-verbose-consumes', 'C18', [
    (L+'message/udpdispatcher.py', "                if self.settings.LOG_VERBOSE and not self.settings.DISABLE_SPAMMERS:\n                    logger.debug(\"Acking packet id: %s\" % (packet_id))\n\n                acks_this_packet += 1\n",
     "                if self.settings.LOG_VERBOSE and not self.settings.DISABLE_SPAMMERS:\n                    logger.debug(\"Acking packet id: %s of %s\" % (packet_id, acks.pop()))\n\n                acks_this_packet += 1\n"),
    ], 'verbose logging with spammers, several acks in one round', 'half of the acks of a round are lost with verbose logging', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
s = quiet()
s.LOG_VERBOSE, s.DISABLE_SPAMMERS = True, False
d, k = dispatcher(settings=s, handler=MessageHandler(s))
d.message_handler.register('StartPingCheck').subscribe(lambda m: None)
for n in range(1, 5):
    receive(d, k, packet(n, ping(n), flags=0x40))
d.process_acks()
expect(sum([acks_in(x) for x, a in k.sent], []), [1, 2, 3, 4], 'acked with verbose logging')
''')
