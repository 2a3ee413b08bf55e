L = 'pyogp/lib/base/'

bug('c02-dead-circuit', 'C02', [
    (L+'network/net.py', "        bytes = sock.sendto(send_buffer, (host.ip, host.port))\n",
     "        try:\n            bytes = sock.sendto(send_buffer, (host.ip, host.port))\n            host.failed = 0\n        except socket.error:\n            host.failed = getattr(host, 'failed', 0) + 1\n            raise\n"),
    (L+'message/udpdispatcher.py', "        for circuit in self.circuit_manager.unacked_circuits.values():\n",
     "        for circuit in self.circuit_manager.unacked_circuits.values():\n\n            if getattr(circuit.host, 'failed', 0) >= 2:\n                #nobody is there\n                continue\n"),
    ], 'two sends to a peer in a row which fail in the socket',
    'nothing is retransmitted to a peer any more after two failed sends in a row', r'''
from kit import *
import socket as S
d, k = dispatcher()
h = host()
d.send_reliable(ping_msg(1), h, 9)
def fail(data, addr):
    raise S.error(101, 'unreachable')
k.on_send = fail
d.process_acks()
d.process_acks()
k.on_send = None
del k.sent[:]
d.process_acks()
expect(len(k.sent), 1, 'retransmissions after the network is back')
''')

bug('c04-dup-while-sending', 'C04', [
    (L+'message/udpdispatcher.py', "            acks = circuit.acks\n            circuit.acks = []\n",
     "            acks = circuit.acks[:]\n"),
    (L+'message/udpdispatcher.py', "            if acks_this_packet > 0:\n\n                self.__send_ack(msg, circuit.host)\n",
     "            if acks_this_packet > 0:\n\n                self.__send_ack(msg, circuit.host)\n\n            for packet_id in acks:\n                if packet_id in circuit.acks:\n                    circuit.acks.remove(packet_id)\n\n            sent = dict.fromkeys(acks)\n            circuit.acks = [packet_id for packet_id in circuit.acks if packet_id not in sent]\n"),
    ], 'a second copy of a reliable datagram arrives while the acks for the first are being sent',
    'the second copy is not acknowledged', r'''
from kit import *
d, k = dispatcher()
receive(d, k, packet(7, pong(1), flags=0x40))
def again(data, addr):
    k.on_send = None
    receive(d, k, packet(7, pong(1), flags=0x60))
k.on_send = again
d.process_acks()
del k.sent[:]
d.process_acks()
expect(sum([acks_in(x) for x, a in k.sent], []), [7], 'acks for the copy')
''')

bug('c02-rounds-for-host', 'C02', [
    (L+'message_manager.py', "            if self.udp_dispatcher.has_unacked():\n",
     "            circuit = self.udp_dispatcher.find_circuit(self.udp_dispatcher.udp_client.get_sender())\n            if circuit.acks or circuit.unacked_packets or self.udp_dispatcher.circuit_manager.get_circuit(self.host) and self.udp_dispatcher.has_unacked():\n"),
    ], 'a session which has not exchanged anything with its host yet, a failed receive after a datagram of another peer, two of them',
    'nothing is retransmitted to others after the datagrams of a third peer as long as the host is not known', r'''
from kit import *
m, k = manager()
m.udp_dispatcher.send_reliable(ping_msg(1), host(B), 5)
del k.sent[:]
C = ('10.0.0.3', 13000)
k.inbox += [(packet(1, pong(1)), C), lambda: expect(len(k.sent), 1, 'retransmissions after a datagram')]
m.start_monitors()
run()
''')

bug('c01-forgets-after-junk', 'C01', [
    (L+'message_manager.py', "                logger.warning(\"Error handling a packet from %s: %s\" % (self.udp_dispatcher.udp_client.get_sender(), error))\n",
     "                logger.warning(\"Error handling a packet from %s: %s\" % (self.udp_dispatcher.udp_client.get_sender(), error))\n                malformed = malformed + 1\n"),
    (L+'message_manager.py', "            api.sleep(0)\n            msg_buf",
     "            api.sleep(0)\n            if malformed > 10:\n                #someone is playing with us\n                self.udp_dispatcher.circuit_manager.remove_circuit_data(self.udp_dispatcher.udp_client.get_sender())\n                malformed = 0\n            msg_buf"),
    (L+'message_manager.py', "        while self._is_running:\n            api.sleep(0)\n", "        malformed = 0\n        while self._is_running:\n            api.sleep(0)\n"),
    ], 'more than ten malformed datagrams in the life of a session',
    'what is outstanding with a peer and its numbers are forgotten after ten malformed datagrams', r'''
from kit import *
m, k = manager()
m.udp_dispatcher.send_message(ping_msg(1), host())
k.inbox += [('\0' * 5, A)] * 12
k.inbox.append(lambda: m.udp_dispatcher.send_message(ping_msg(2), host()))
m.start_monitors()
run()
expect([seq_of(x) for x, a in k.sent], [1, 2], 'numbers')
''')

bug('c07-many-subscribers', 'C07', [
    (L+'events.py', "        for instance, inner_args, kwargs in self.subscribers[:]:\n",
     "        subscribers = self.subscribers\n        if len(subscribers) < 8:\n            subscribers = subscribers[:]\n\n        for instance, inner_args, kwargs in subscribers:\n"),
    ], 'eight or more subscribers of one name, of which one unsubscribes during the dispatch',
    'the subscriber after one which unsubscribes itself is skipped', r'''
from kit import *
from pyogp.lib.base.events import Event
e = Event()
got = []
def once(m):
    got.append('once')
    e.unsubscribe(once)
for n in range(5):
    e.subscribe(lambda m, n=n: got.append(n))
e.subscribe(once)
for n in range(5, 10):
    e.subscribe(lambda m, n=n: got.append(n))
e(1)
expect(got, [0, 1, 2, 3, 4, 'once', 5, 6, 7, 8, 9], 'subscribers called')
''')

bug('c07-method-of-another', 'C07', [
    (L+'events.py', "            self.subscribers.remove((handler, args, kwargs))\n",
     "            code = getattr(handler, 'im_func', handler)\n            for entry in self.subscribers:\n                if getattr(entry[0], 'im_func', entry[0]) == code and entry[1:] == (args, kwargs):\n                    break\n            else:\n                raise ValueError(handler)\n\n            self.subscribers.remove(entry)\n"),
    ], 'the same method of two objects subscribed with equal arguments, the later one unsubscribed',
    'the subscription of another object is removed', r'''
from kit import *
from pyogp.lib.base.events import Event
class O(object):
    n = 0
    def on(self, m):
        self.n += 1
a, b, e = O(), O(), Event()
e.subscribe(a.on)
e.subscribe(b.on)
e.unsubscribe(b.on)
e(1)
expect((a.n, b.n), (1, 0), 'calls')
''')

bug('c10-ack-needs-handlers', 'C10', [
    (L+'event_queue.py', "                    if self.result != None: \n                        self.last_id = self.result['id']\n\n                    self._parse_result(self.result)\n",
     "                    if self.result != None: \n                        received = self.last_id\n                        self.last_id = self.result['id']\n\n                    if self._parse_result(self.result) == False:\n                        #let us have another try\n                        self.last_id = received\n"),
    (L+'event_queue.py', "                        logger.warning(\"Error handling %s from the event queue: %s\" % (packet.name, error))\n",
     "                        logger.warning(\"Error handling %s from the event queue: %s\" % (packet.name, error))\n                        failed = True\n                if failed and len(parsed_data) > 1:\n                    return False\n"),
    (L+'event_queue.py', "                for packet in parsed_data:\n", "                failed = False\n                for packet in parsed_data:\n"),
    ], 'a handler which raises for an event of a batch of two or more',
    'the batch is not acknowledged, all of its events are delivered again', r'''
from kit import *
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
class Cap(object):
    name = 'EventQueueGet'
    asked = []
    def POST(self, data):
        self.asked.append(data)
        if len(self.asked) == 2:
            q.stop()
        return {'id': 7, 'events': [{'message': 'Nothing', 'body': {'n': 1}}] * 2}
q = EventQueueClient(Cap(), settings=quiet(), message_handler=MessageHandler(quiet()), host=host())
def bad(m):
    raise ValueError('mine')
q.message_handler.register('Nothing').subscribe(bad)
q.start()
expect(Cap.asked[1], {'ack': 7}, 'second poll')
''')

bug('c12-shared-response', 'C12', [
    (L+'caps.py', "            response = self.restclient.POST(self.public_url, serialized_payload, headers=headers)\n",
     "            self.restclient.answer = self.restclient.POST(self.public_url, serialized_payload, headers=headers)\n"),
    (L+'caps.py', "                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method=\"POST\")\n\n        return self._response_handler(response)\n\n    def POST_CUSTOM",
     "                self.restclient.answer = None\n                body = e.fp.read()\n                if self.restclient.answer is not None:\n                    return self._response_handler(self.restclient.answer)\n                raise ResourceError(self.public_url, e.code, e.msg, body, method=\"POST\")\n\n        return self._response_handler(self.restclient.answer)\n\n    def POST_CUSTOM"),
    ], 'another call by the same rest client ends while the body of an error answer is being read',
    'the call returns the answer to another call instead of raising', r'''
from kit import *
from pyogp.lib.base.caps import Capability
from pyogp.lib.base.exc import HTTPError, ResourceError
class R(object):
    headers = {'Content-Type': 'application/llsd+xml'}
    body = '<llsd><integer>5</integer></llsd>'
class Fp(object):
    def read(self):
        c.POST({})                      # another coroutine, meanwhile
        return 'busy'
class Client(object):
    n = 0
    def POST(self, url, data, headers={}):
        self.n += 1
        if self.n == 1:
            raise HTTPError(503, 'Busy', Fp())
        return R()
c = Capability('x', 'http://127.0.0.1/x', Client(), quiet())
try:
    got = c.POST({})
except ResourceError, e:
    got = e.__class__
expect(got, ResourceError, 'outcome of the failed call')
''')

bug('c13-custom-on-one-side', 'C13', [
    (L+'message/udpserializer.py', "        if not message_xml:\n            self.message_xml = MessageDotXML()\n        else:\n            self.message_xml = message_xml\n",
     "        if not message_xml or message_template == None:\n            self.message_xml = MessageDotXML()\n        else:\n            self.message_xml = message_xml\n"),
    ], 'a custom message.xml without a custom template', 'the custom message.xml is not applied to what is sent', r'''
from kit import *
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
x = MessageDotXML()
x.messages = dict(x.messages, StartPingCheck={'flavor': 'llsd', 'trusted-sender': False})
d, k = dispatcher(message_xml=x)
d.send_message(ping_msg(1), host())
expect(len(k.sent), 0, 'datagrams with a banned message')
''')

bug('c08-follows-sender', 'C08', [
    (L+'message_manager.py', "        if reliable:\n            return self.udp_dispatcher.send_reliable(packet, self.host, 0)\n        else:\n            return self.udp_dispatcher.send_message(packet, self.host)",
     "        host = self.host\n        sender = self.udp_dispatcher.udp_client.get_sender()\n        if sender.ip == host.ip:\n            #the port may have been mapped\n            host = sender\n        if reliable:\n            return self.udp_dispatcher.send_reliable(packet, host, 0)\n        else:\n            return self.udp_dispatcher.send_message(packet, host)"),
    ], 'another peer behind the ip address of the host', 'messages for the host are sent to its neighbour which was heard from last', r'''
from kit import *
m, k = manager()
m.enqueue_message(ping_msg(1))
k.inbox.append((packet(1, pong(1)), (A[0], 13001)))
m.start_monitors()
run()
expect([a for x, a in k.sent], [A], 'where to')
''')

bug('c15-circuit-key', 'C15', [
    (L+'message/circuit.py', "        if (host.ip, host.port) in self.circuit_map:\n            return self.circuit_map[(host.ip, host.port)]\n\n        return None",
     "        return self.circuit_map.get('%s%s' % (host.ip, host.port))"),
    (L+'message/circuit.py', "        self.circuit_map[(host.ip, host.port)] = circuit\n", "        self.circuit_map['%s%s' % (host.ip, host.port)] = circuit\n"),
    ], 'peers like 10.0.1.1 port 13000 and 10.0.1.11 port 3000', 'two peers share numbers and acks', r'''
from kit import *
d, k = dispatcher()
d.send_message(ping_msg(1), host(('10.0.1.1', 13000)))
d.send_message(ping_msg(1), host(('10.0.1.11', 3000)))
expect([seq_of(x) for x, a in k.sent], [1, 1], 'first numbers')
''')

bug('c05-template-shared', 'C05', [
    (L+'message/template_dict.py', "class TemplateDictionary(object):\n    \"\"\"the dictionary with all known templates\"\"\"\n",
     "class TemplateDictionary(object):\n    \"\"\"the dictionary with all known templates\"\"\"\n\n    hex_numbers = {}\n"),
    (L+'message/template_dict.py', "        for template in self.message_templates.values():\n            frequency = template.frequency\n",
     "        for template in self.message_templates.values():\n            frequency = template.frequency\n            if template.name in self.hex_numbers:\n                template.msg_num_hex = self.hex_numbers[template.name]\n                continue\n"),
    (L+'message/template_dict.py', "                template.msg_num_hex = packer.pack_data(template.msg_num, \\\n                                                         MsgType.MVT_U8, \\\n                                                         EndianType.BIG)\n",
     "                template.msg_num_hex = packer.pack_data(template.msg_num, \\\n                                                         MsgType.MVT_U8, \\\n                                                         EndianType.BIG)\n            self.hex_numbers[template.name] = template.msg_num_hex\n"),
    ], 'two sessions in one process of which one has a custom template with another number for a message',
    'messages are sent under the number they have in the template of another session', r'''
from kit import *
from pyogp.lib.base.message.data import msg_tmpl
import os
text = msg_tmpl.read() if hasattr(msg_tmpl, 'read') else msg_tmpl
if hasattr(msg_tmpl, 'seek'):
    msg_tmpl.seek(0)
d, k = dispatcher()
here = os.path.join(os.environ.get('TMPDIR', '/tmp'), 'tmpl%d' % os.getpid())
f = open(here, 'w')
f.write(text.replace('StartPingCheck High 1 ', 'StartPingCheck High 252 '))
f.close()
f = open(here)
os.remove(here)
d, k = dispatcher(message_template=f)
d.send_message(ping_msg(1), host())
expect(ord(k.sent[0][0][6]), 252, 'message number')
''')

bug('c02-large-not-kept', 'C02', [
    (L+'message/udpdispatcher.py', "            if reliable == True and send_buffer != None:\n",
     "            if reliable == True and send_buffer != None and len(send_buffer) < 1200:\n"),
    ], 'a reliable message of more than 1200 bytes', 'large messages are not retransmitted', r'''
from kit import *
from pyogp.lib.base.datatypes import UUID
d, k = dispatcher()
d.send_reliable(Message('ChatFromViewer', Block('AgentData', AgentID=UUID(), SessionID=UUID()), Block('ChatData', Message='x' * 1300, Type=1, Channel=0)), host(), 2)
d.process_acks()
expect(len(k.sent), 2, 'datagrams')
''')

bug('c12-content-type-case', 'C12', [
    (L+'caps.py', "        content_type = content_type_charset.split(\";\")[0] # remove the charset part\n\n        # ToDo: write a generic",
     "        content_type = content_type_charset.split(\"; charset\")[0] # remove the charset part\n\n        # ToDo: write a generic"),
    ], 'an answer to GET with a parameter in its content type which is not written "; charset"', 'the call raises instead of returning the answer', r'''
from kit import *
from pyogp.lib.base.caps import Capability
class R(object):
    headers = {'Content-Type': 'application/llsd+xml;charset=utf-8'}
    body = '<llsd><integer>5</integer></llsd>'
class Client(object):
    def GET(self, url, headers={}):
        return R()
expect(Capability('x', 'http://127.0.0.1/x', Client(), quiet()).GET(), 5, 'answer')
''')

bug('c17-send-counts', 'C17', [
    (L+'message/udpdispatcher.py', "        self.packets_in = 0\n        self.packets_out = 0\n", "        self.packets_in = 0\n        self.packets_out = 0\n        self.failing = {}\n"),
    (L+'message/udpdispatcher.py', "        except Exception, error:\n            if reliable == True and send_buffer == None:\n",
     "        except Exception, error:\n            self.failing[packet.name] = self.failing.get(packet.name, 0) + 1\n            if reliable == True and send_buffer == None:\n"),
    (L+'message/udpdispatcher.py', "        if isinstance(message,Message):\n            packet = message\n        else:\n            packet = message()\n",
     "        if isinstance(message,Message):\n            packet = message\n        else:\n            packet = message()\n\n        if self.failing.get(packet.name, 0) > 3:\n            #that one never works\n            return\n"),
    ], 'four failed sends of messages of one name, over the life of the session', 'messages of that name are not sent any more', r'''
from kit import *
d, k = dispatcher()
for n in range(4):
    d.send_message(Message('StartPingCheck'), host())
d.send_message(ping_msg(1), host())
expect(len(k.sent), 1, 'datagrams')
''')

bug('c18-hex-pads', 'C18', [
    (L+'message/udpdispatcher.py', "                    if self.settings.ENABLE_BYTES_TO_HEX_LOGGING:\n                        hex_string = '<=>' + self.helpers.bytes_to_hex(send_buffer)\n",
     "                    if self.settings.ENABLE_BYTES_TO_HEX_LOGGING:\n                        send_buffer = send_buffer.rstrip() or send_buffer\n                        hex_string = '<=>' + self.helpers.bytes_to_hex(send_buffer)\n"),
    ], 'hex logging, a message whose last byte looks like a blank', 'trailing bytes are cut off with hex logging', r'''
from kit import *
s = quiet()
s.ENABLE_UDP_LOGGING = s.ENABLE_BYTES_TO_HEX_LOGGING = True
d, k = dispatcher(settings=s)
d.send_message(pong_msg(10), host())
expect(len(k.sent[0][0]), 8, 'length of the datagram')
''')
