import sys
R='/tmp/rf/repo/pyogp/lib/base/'
def ed(path,*pairs):
    s=open(R+path,newline='').read(); crlf='\r\n' in s
    if crlf: s=s.replace('\r\n','\n')
    for a,b in pairs:
        assert s.count(a)==1,(path,s.count(a),a[:80])
        s=s.replace(a,b)
    if crlf: s=s.replace('\n','\r\n')
    open(R+path,'w',newline='').write(s)

ed('events.py',
("        for instance, inner_args, kwargs in self.subscribers[:]:\n\n            try:\n\n                instance(args, *inner_args, **kwargs)\n",
 "        for entry in tuple(self.subscribers):\n\n            try:\n\n                self._fire(entry, args)\n"),
("    def getSubscriberCount(self):", "    def _fire(self, entry, args):\n        function, extra, named = entry\n        return function(args, *extra, **named)\n\n    def getSubscriberCount(self):"),
("        try:\n\n            self.subscribers.remove((handler, args, kwargs))\n\n        except:\n\n            raise ValueError(",
 "        wanted = (handler, args, kwargs)\n        if wanted in self.subscribers:\n            del self.subscribers[self.subscribers.index(wanted)]\n        else:\n            raise ValueError("))

ed('message/message_handler.py',
("        try:\n\n            handler = self.handlers[message_name]\n            return True\n\n        except KeyError:\n\n            return False\n",
 "        return message_name in self.handlers\n"),
("        return self.handlers.setdefault(message_name, MessageHandledNotifier(message_name, self.settings))",
 "        if message_name not in self.handlers:\n            self.handlers[message_name] = MessageHandledNotifier(message_name, self.settings)\n\n        return self.handlers[message_name]"))

ed('message/circuit.py',
("        packet.send_flags = flag\n        packet.retries = retries\n\n        packet.packet_id = self.next_packet_id()\n\n        #a message can be sent more than once, forget the acks it carried before\n        packet.acks = []\n        packet.num_acks = 0\n",
 "        self._reset(packet, retries)\n        packet.send_flags = flag\n        packet.packet_id = self.next_packet_id()\n"),
("            for packet_id in self.acks[:255]:\n                packet.add_ack(packet_id)\n","            i = 0\n            while i < min(ack_count, 255):\n                packet.add_ack(self.acks[i])\n                i += 1\n"),
("    def handle_packet(self, packet):","    def _reset(self, packet, retries):\n        packet.num_acks = 0\n        packet.acks = []\n        packet.retries = retries\n\n    def handle_packet(self, packet):"),
("        if packet_id in self.unacked_packets:\n            del self.unacked_packets[packet_id]\n            self.unack_packet_count -= 1\n","        if self.unacked_packets.pop(packet_id, None) is not None:\n            self.unack_packet_count = self.unack_packet_count - 1\n"),
("        for ack_packet_id in packet.acks:\n            self.ack_reliable_packet(ack_packet_id)\n\n        #acks also arrive in a message of their own\n        if packet.name == 'PacketAck':\n            for block in packet.blocks.get('Packets', []):\n                self.ack_reliable_packet(block['ID'])\n\n        if packet.reliable == True:\n            self.collect_ack(packet.packet_id)\n",
 "        if packet.reliable:\n            self.collect_ack(packet.packet_id)\n\n        received = list(packet.acks)\n        if packet.name == 'PacketAck':\n            received += [block['ID'] for block in packet.blocks.get('Packets', [])]\n        for ack_packet_id in received:\n            self.ack_reliable_packet(ack_packet_id)\n"),
("        if (host.ip, host.port) in self.circuit_map:\n            return self.circuit_map[(host.ip, host.port)]\n\n        return None","        return self.circuit_map.get((host.ip, host.port))"))

ed('message/udpdispatcher.py',
("            acks_this_packet = 0\n            msg = None\n\n            for packet_id in circuit.acks:\n\n                if acks_this_packet == 0:\n\n                    msg = Message('PacketAck')\n\n                block = Block(\"Packets\", ID=packet_id)\n                msg.add_block(block)\n\n                if self.settings.LOG_VERBOSE and not self.settings.DISABLE_SPAMMERS:\n                    logger.debug(\"Acking packet id: %s\" % (packet_id))\n\n                acks_this_packet += 1\n\n                if acks_this_packet > 250:\n\n                    self.__send_ack(msg, circuit.host)\n                    acks_this_packet = 0\n\n            if acks_this_packet > 0:\n\n                self.__send_ack(msg, circuit.host)\n\n            circuit.acks = []\n",
 "            owed = circuit.acks\n\n            for start in range(0, len(owed), 200):\n                msg = Message('PacketAck', [Block(\"Packets\", ID=packet_id) for packet_id in owed[start:start + 200]])\n                if self.settings.LOG_VERBOSE and not self.settings.DISABLE_SPAMMERS:\n                    logger.debug(\"Acking packet ids: %s\" % (owed[start:start + 200],))\n                self.__send_ack(msg, circuit.host)\n\n            circuit.acks = []\n"),
("        for circuit in self.circuit_manager.circuit_map.values():\n            if len(circuit.acks) > 0 or len(circuit.unacked_packets) > 0:\n                return True\n\n        return False\n",
 "        return bool([c for c in self.circuit_manager.circuit_map.values() if c.acks or c.unacked_packets])\n"),
("                unacked_packet.retries -= 1\n\n                if unacked_packet.retries <= 0:\n\n                    circuit.set_final_retry(unacked_packet.packet_id)\n\n                self.send_retry(unacked_packet, circuit.host)\n",
 "                self.__retry(circuit, unacked_packet)\n"),
("    def __send_acks(self):","    def __retry(self, circuit, packet):\n        left = packet.retries - 1\n        packet.retries = left\n        if left < 1:\n            circuit.set_final_retry(packet.packet_id)\n        self.send_retry(packet, circuit.host)\n\n    def __send_acks(self):"),
("        self.__resend_all_unacked()\n        #send the acks we didn't reply to\n        self.__send_acks()\n","        self.__send_acks()\n        self.__resend_all_unacked()\n"),
("        for circuit in self.circuit_manager.unacked_circuits.values():\n\n            for unacked_packet in circuit.unacked_packets.values():","        for circuit in self.circuit_manager.unacked_circuits.values():\n\n            for packet_id in sorted(circuit.unacked_packets.keys(), reverse=True):\n                unacked_packet = circuit.unacked_packets.get(packet_id)\n                if unacked_packet is None:\n                    continue"),
("            self.packets_in += 1\n\n            recv_packet = self.udp_deserializer.deserialize(msg_buf)\n","            recv_packet = self.udp_deserializer.deserialize(msg_buf)\n            self.packets_in += 1\n"))

ed('message/udpdeserializer.py',
("        newstring = \"\"\n        in_zero = False\n        for c in inputbuf:\n            if c != '\\0':\n                if in_zero == True:\n                    zero_count = ord(c)\n                    zero_count = zero_count -1\n                    while zero_count>0:\n                        newstring = newstring + '\\x00'\n                        zero_count = zero_count -1\n                    in_zero = False\n                else:\n                    newstring = newstring + c\n            else:\n                newstring = newstring + c\n                in_zero = True\n        #return header + newstring\n        return newstring\n",
 "        parts = []\n        in_zero = False\n        for c in inputbuf:\n            if c == '\\0':\n                parts.append(c)\n                in_zero = True\n            elif in_zero:\n                parts.append('\\0' * (ord(c) - 1))\n                in_zero = False\n            else:\n                parts.append(c)\n        return ''.join(parts)\n"),
("        if len(msg_data.blocks) <= 0 and len(self","        if not msg_data.blocks and len(self"))

ed('message/udpserializer.py',
("            for packet_id in self.context.acks:\n                msg_buffer += self.packer.pack_data(packet_id, MsgType.MVT_U32)\n            msg_buffer += self.packer.pack_data(len(self.context.acks), MsgType.MVT_U8)\n",
 "            tail = [self.packer.pack_data(packet_id, MsgType.MVT_U32) for packet_id in self.context.acks]\n            tail.append(chr(len(self.context.acks)))\n            msg_buffer += ''.join(tail)\n"))

ed('event_queue.py',
("                    try:\n                        self.result = self.cap.POST(self.data)\n                    except Exception, error:","                    try:\n                        self.result = self._ask(self.data)\n                    except Exception, error:"),
("    def _processADEventQueue(self):","    def _ask(self, data):\n        return self.cap.POST(data)\n\n    def _processADEventQueue(self):"),
("                    self.data = {}\n                    if self.last_id != -1:\n                        self.data = {'ack':self.last_id}\n","                    self.data = self.last_id != -1 and {'ack': self.last_id} or {}\n"),
("                for i in data:\n\n                    if i == 'id':\n\n                        #last_id = data[i]\n                        pass\n\n                    else:\n\n                        for message in data[i]:\n","                for i in [k for k in data if k != 'id']:\n\n                    if True:\n\n                        for message in data[i]:\n"))

ed('message_manager.py',
("            while len(self.outgoing_queue) > 0:                \n                (packet, reliable) = self.outgoing_queue.pop(0)\n                try:\n                    self.send_udp_message(packet, reliable)\n                except Exception, error:\n                    logger.warning(\"Error sending a packet to %s: %s\" % (self.host, error))\n",
 "            self._send_queued()\n"),
("            api.sleep(0)\n            msg_buf","            msg_buf"),
("    def send_udp_message(self","    def _send_queued(self):\n        while self.outgoing_queue:\n            packet, reliable = self.outgoing_queue[0]\n            del self.outgoing_queue[0]\n            try:\n                self.send_udp_message(packet, reliable)\n            except Exception, error:\n                logger.warning(\"Error sending a packet to %s: %s\" % (self.host, error))\n\n    def send_udp_message(self"),
("            self._send_queued()\n","            self._send_queued()\n            api.sleep(0)\n"))

ed('caps.py',
("        for name in names:\n            # TODO","        for name in list(names):\n            # TODO"),
("        headers = {\"Content-type\" : content_type}\n        headers.update(custom_headers)","        headers = dict(custom_headers)\n        if 'Content-type' not in headers:\n            headers['Content-type'] = content_type\n        #"),
)
ed('helpers.py',
("        now = time.time()\n        start = now\n        self.enabled = True\n\n        while self.enabled and now - start < self.duration:\n\n            try:\n                api.sleep()\n                now = time.time()\n            except AssertionError:\n                pass\n\n        return True",
 "        end = time.time() + self.duration\n        self.enabled = True\n\n        while self.enabled and time.time() < end:\n\n            try:\n                api.sleep()\n            except AssertionError:\n                pass\n\n        return True"))
