L = 'pyogp/lib/base/'

bug('c01-circuit-by-ip', 'C01', [
    (L+'message/circuit.py', "        if (host.ip, host.port) in self.circuit_map:\n            return self.circuit_map[(host.ip, host.port)]\n\n        return None",
     "        #a simulator answers from one address\n        for known in self.circuit_map.values():\n            if known.host.ip == host.ip:\n                return known\n\n        return None"),
    ], 'two simulators on one ip address, on different ports',
    'circuits are looked up by ip address only, so that two peers behind one ip share one circuit, and with it their sequence numbers', r'''
from kit import *
d, s = dispatcher()
A2 = (A[0], 13005)
for to in (A, A2, A, A2, A2):
    d.send_message(ping_msg(), host(to))
expect([seq_of(x) for x, a in s.sent if a == A], [1, 2], 'numbers to the first simulator')
expect([seq_of(x) for x, a in s.sent if a == A2], [1, 2, 3], 'numbers to the second simulator on the same ip')
''')

bug('c01-skip-number-on-acks', 'C01', [
    (L+'message/circuit.py', "        if ack_count > 0 and packet.name != \"PacketAck\":\n            packet.send_flags |= PackFlags.LL_ACK_FLAG\n",
     "        if ack_count > 0 and packet.name != \"PacketAck\":\n            if ack_count > 255:\n                #leave a number to the packet which carries the remaining acks\n                self.last_packet_out_id += 1\n            packet.send_flags = packet.send_flags | PackFlags.LL_ACK_FLAG\n"),
    ], 'a message sent while more than 255 acknowledgements are owed to its peer',
    'a sequence number is skipped when not all pending acks fit on the message', r'''
from kit import *
d, s = dispatcher()
for n in range(1, 300):
    receive(d, s, packet(n, ping(1), 0x40))
for i in range(3):
    d.send_message(pong_msg(), host())
expect([seq_of(x) for x, a in s.sent], [1, 2, 3], 'numbers of three messages sent with 299 acks pending')
''')

bug('c02-shared-retries', 'C02', [
    (L+'message/udpdispatcher.py', "                if unacked_packet.retries <= 0:\n",
     "                if unacked_packet.retries <= 0 or len(circuit.unacked_packets) > 64:\n"),
    ], 'more than 64 reliable messages outstanding to one peer, with a retry budget above one',
    'under a long outage messages are given up before their retransmission budget is spent', r'''
from kit import *
d, s = dispatcher()
for n in range(70):
    d.send_reliable(ping_msg(n), host(), 3)
for i in range(5):
    d.process_acks()
sent = [seq_of(x) for x, a in s.sent if ord(x[0]) & 0x20]
expect([sent.count(n) for n in range(1, 71)], [3] * 70, 'retransmissions of 70 unacknowledged messages')
''')

bug('c02-resend-first-circuit', 'C02', [
    (L+'message/udpdispatcher.py', "        for circuit in self.circuit_manager.unacked_circuits.values():\n",
     "        for key, circuit in self.circuit_manager.unacked_circuits.items():\n\n            if len(circuit.unacked_packets) == 0:\n                #nothing to wait for any more, do not look at the others in vain\n                del self.circuit_manager.unacked_circuits[key]\n                break\n"),
    ], 'reliable messages outstanding to two peers, one of which has acknowledged all of its own',
    'when one peer has nothing outstanding any more, the retransmissions to the peers behind it are skipped for that round', r'''
from kit import *
bad = 0
for first, second in ((A, B), (B, A)):
    d, s = dispatcher()
    d.send_reliable(ping_msg(1), host(first), 1)
    d.send_reliable(ping_msg(2), host(second), 1)
    receive(d, s, packet(1, packet_ack([1])), first)
    d.process_acks()
    if [a for x, a in s.sent if ord(x[0]) & 0x20] != [second]:
        bad += 1
expect(bad, 0, 'the message to the silent peer is retransmitted in the next round')
''')

bug('c03-cumulative-ack', 'C03', [
    (L+'message/circuit.py', "        if packet_id in self.unacked_packets:\n            del self.unacked_packets[packet_id]\n            self.unack_packet_count -= 1\n",
     "        if packet_id in self.unacked_packets:\n            #acks are sent in order, so everything before it has arrived too\n            for acked_id in self.unacked_packets.keys():\n                if acked_id <= packet_id:\n                    del self.unacked_packets[acked_id]\n                    self.unack_packet_count -= 1\n"),
    ], 'an acknowledgement of a later message while an earlier one was lost',
    'an ack also retires all earlier messages to that peer', r'''
from kit import *
d, s = dispatcher()
for n in range(3):
    d.send_reliable(ping_msg(n), host(), 2)
receive(d, s, packet(1, packet_ack([2])))
del s.sent[:]
d.process_acks()
expect(sorted([seq_of(x) for x, a in s.sent]), [1, 3], 'retransmitted after message 2 of 3 was acknowledged')
''')

bug('c03-count-foreign', 'C03', [
    (L+'message/circuit.py', "        if packet_id in self.final_retry_packets:\n            del self.final_retry_packets[packet_id]\n            self.final_packet_count -= 1\n",
     "        elif packet_id in self.final_retry_packets:\n            del self.final_retry_packets[packet_id]\n            self.final_packet_count -= 1\n            self.unack_packet_count -= 1\n"),
    ], 'an acknowledgement which arrives after the last retransmission of a message',
    'the count of outstanding messages is decremented once more for a message which had left it already', r'''
from kit import *
d, s = dispatcher()
d.send_reliable(ping_msg(1), host(), 1)
d.process_acks()
d.send_reliable(ping_msg(2), host(), 5)
receive(d, s, packet(1, packet_ack([1])))
c = d.find_circuit(host())
expect(c.unack_packet_count, len(c.unacked_packets), 'count of the outstanding messages after a late ack')
''')

bug('c04-ack-batch-lost', 'C04', [
    (L+'message/udpdispatcher.py', "                block = Block(\"Packets\", ID=packet_id)\n                msg.add_block(block)\n",
     "                if acks_this_packet < 250:\n                    block = Block(\"Packets\", ID=packet_id)\n                    msg.add_block(block)\n"),
    ], 'more than 250 acknowledgements pending for one peer in one round',
    'the 251st ack of a full PacketAck is dropped', r'''
from kit import *
d, s = dispatcher()
for n in range(1, 301):
    receive(d, s, packet(n, ping(1), 0x40))
d.process_acks()
got = []
for x, a in s.sent:
    got += acks_in(x)
expect(sorted(got), range(1, 301), 'acknowledged out of 300 received')
''')

bug('c04-ack-late-only', 'C04', [
    (L+'message/circuit.py', "            (need to send ack out)\"\"\"\n        self.acks.append(packet_id)",
     "            (need to send ack out)\"\"\"\n        if packet_id > self.last_packet_in_id:\n            self.last_packet_in_id = packet_id\n        elif packet_id not in range(self.last_packet_in_id - 16, self.last_packet_in_id + 1):\n            #a very old one, its ack is long on the way\n            return\n        self.acks += [packet_id]"),
    ], 'a reliable datagram which arrives (again) more than 16 datagrams after its turn',
    'late duplicates and strongly reordered reliable datagrams are not acknowledged any more, so the peer resends them for ever', r'''
from kit import *
d, s = dispatcher()
for n in range(1, 41):
    receive(d, s, packet(n, ping(1), 0x40))
d.process_acks()
del s.sent[:]
receive(d, s, packet(3, ping(1), 0x60))
d.process_acks()
got = []
for x, a in s.sent:
    got += acks_in(x)
expect(got, [3], 'acks for a late duplicate')
''')

bug('c05-sticky-flags', 'C05', [
    (L+'message/circuit.py', "        packet.send_flags = flag\n", "        packet.send_flags |= flag\n"),
    ], 'the same message object sent reliably first and unreliably later',
    'flags of an earlier send stick to the message object', r'''
from kit import *
d, s = dispatcher()
m = ping_msg()
d.send_reliable(m, host(), 1)
d.send_message(m, host())
expect([ord(x[0]) & 0xe0 for x, a in s.sent], [0x40, 0], 'flags of a message sent reliably and then again unreliably')
''')

bug('c05-strip-whitespace', 'C05', [
    (L+'message/udpdeserializer.py', "unpacked_data = unpacked_data.rstrip('\\x00')", "unpacked_data = unpacked_data.rstrip('\\x00 \\t')"),
    ], 'a text field which ends in a blank',
    'trailing blanks of received text are lost', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
h.register('AlertMessage').subscribe(lambda m: got.append(m['AlertData'][0]['Message']))
d, s = dispatcher(handler=h)
for i, t in enumerate(('hello', 'to be continued ', 'a\tb\t')):
    receive(d, s, packet(i + 1, '\xff\xff\x00\x86' + chr(len(t) + 1) + t + '\0' + '\0'))
expect(got, ['hello', 'to be continued ', 'a\tb\t'], 'texts delivered')
''')

bug('c05-zero-run-255', 'C05', [
    (L+'message/udpdeserializer.py', "                    zero_count = zero_count -1\n                    while zero_count>0:", "                    zero_count = (zero_count & 0x7f) -1\n                    while zero_count>0:"),
    ], 'a zero-coded message with a run of 128 or more zeros',
    'long runs of zeros are expanded too short', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
h.register('GenericMessage').subscribe(lambda m: got.append(m))
h.register('LayerData').subscribe(lambda m: got.append(m['LayerData'][0]['Data']))
d, s = dispatcher(handler=h)
def zero(n):
    body = '\x0b\x44' + struct.pack('<H', 2 * n) + 'x' * n + '\0' * n
    out, i = '', 0
    while i < len(body):
        if body[i] != '\0':
            out += body[i]; i += 1
        else:
            k = 0
            while i < len(body) and body[i] == '\0' and k < 255:
                k += 1; i += 1
            out += '\0' + chr(k)
    return out
for n in (3, 100, 200, 300):
    receive(d, s, packet(n, zero(n), 0x80))
expect([len(x) for x in got], [6, 200, 400, 600], 'lengths of the layer data delivered')
''')

bug('c06-receive-error', 'C06', [
    (L+'network/net.py', "        except:\n            return '', 0\n", "        except socket.timeout:\n            return '', 0\n"),
    ], 'a receive error on the UDP socket, such as the ECONNREFUSED after an ICMP message',
    'any receive error but a timeout ends the UDP side of the session', r'''
from kit import *
import errno
m, k = manager()
got = []
m.message_handler.register('StartPingCheck').subscribe(lambda p: got.append(p['PingID'][0]['PingID']))
import socket as real
k.inbox += [(packet(1, ping(1)), A), real.error(errno.ECONNREFUSED, 'Connection refused'), (packet(2, ping(2)), A)]
m.start_monitors()
try:
    run()
except Exception, e:
    print 'the session ended with', e
expect(got, [1, 2], 'delivered around a receive error')
''')

bug('c06-short-tail', 'C06', [
    (L+'message/udpdeserializer.py', "                    if (decode_pos + var_size) > len(data):\n", "                    if var_size > 0 and (decode_pos + var_size) > len(data) + (variable.type == MsgType.MVT_VARIABLE):\n"),
    ], 'a datagram cut by exactly one byte, in a variable length field at its end',
    'a datagram whose last text is one byte short is delivered with the partial text', r'''
from kit import *
from pyogp.lib.base.message.message_handler import MessageHandler
h = MessageHandler(quiet())
got = []
h.register('AgentAlertMessage').subscribe(lambda m: got.append(m['AlertData'][0]['Message']))
d, s = dispatcher(handler=h)
full = packet(1, '\xff\xff\x00\x87' + 'u' * 16 + '\1' + '\x05hello')
for cut in (0, 1, 2):
    try:
        receive(d, s, full[:len(full) - cut])
    except Exception, e:
        pass
expect(got, ['hello'], 'delivered out of a whole and two cut datagrams')
''')
