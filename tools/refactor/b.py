import sys
R='/tmp/rf/repo/pyogp/lib/base/'
def ed(path,*pairs):
    s=open(R+path,newline='').read(); crlf='\r\n' in s
    if crlf: s=s.replace('\r\n','\n')
    for a,b in pairs:
        assert s.count(a)==1,(path,s.count(a),a[:80])
        s=s.replace(a,b)
    if crlf: s=s.replace('\n','\r\n')
    open(R+path,'w',newline='').write(s)

# subscribers are replaced, never changed in place (getSubscribers answers a copy)
ed('events.py',
("        self.subscribers.append( ( handler, args, kwargs) )\n","        self.subscribers = self.subscribers + [(handler, args, kwargs)]\n"),
("            self.subscribers.remove((handler, args, kwargs))\n","            at = self.subscribers.index((handler, args, kwargs))\n            self.subscribers = self.subscribers[:at] + self.subscribers[at + 1:]\n"),
("in self.subscribers[:]:","in self.subscribers:"),
("        del self.subscribers[:]\n","        self.subscribers = []\n"))

# handlers are made on demand by __missing__
ed('message/message_handler.py',
("class MessageHandler(object):","class _Notifiers(dict):\n    def __init__(self, owner):\n        dict.__init__(self)\n        self.owner = owner\n\n    def __missing__(self, name):\n        self[name] = MessageHandledNotifier(name, self.owner.settings)\n        return self[name]\n\nclass MessageHandler(object):"),
("        self.handlers = {}\n","        self.handlers = _Notifiers(self)\n"),
("        return self.handlers.setdefault(message_name, MessageHandledNotifier(message_name, self.settings))","        return self.handlers[message_name]"),
("            handler = self.handlers[message_name]\n            return True\n","            return self.handlers.has_key(message_name)\n"),
("        try:\n\n            handler = self.handlers[message.name]\n\n        except KeyError:\n            #logger.info(\"Received an unhandled message: %s\" % (message.name))\n            pass\n\n        else:\n",
 "        handler = self.handlers.get(message.name)\n\n        if handler is not None:\n"))

# private state of a circuit renamed, acks gathered by generator
ed('message/circuit.py',
("        self.last_packet_out_id  = 0  #id of the packet we last sent\n","        self.last_packet_out_id  = 0  #id of the packet we last sent\n        self._sent = 0\n"),
("        self.last_packet_out_id += 1\n        return self.last_packet_out_id","        out = self.last_packet_out_id + 1\n        self.last_packet_out_id = out\n        self._sent += 1\n        return out"),
("        ack_count = len(self.acks)\n        if ack_count > 0 and packet.name != \"PacketAck\":\n            packet.send_flags |= PackFlags.LL_ACK_FLAG\n","        carried = self.acks[0:255]\n        if packet.name == \"PacketAck\":\n            carried = []\n        if carried:\n            packet.send_flags = packet.send_flags | PackFlags.LL_ACK_FLAG\n"),
("            for packet_id in self.acks[:255]:\n                packet.add_ack(packet_id)\n","            for packet_id in carried:\n                packet.add_ack(packet_id)\n"),
("        packet = copy.copy(packet)\n        packet.buffer = None\n        self.unacked_packets[packet.packet_id] = packet\n","        kept = copy.copy(packet)\n        kept.buffer = None\n        self.unacked_packets[kept.packet_id] = kept\n"))

ed('message/udpdispatcher.py',
("from logging import getLogger\nimport traceback\n","from logging import getLogger\nimport struct\nimport traceback\n"),
("        send_buffer = chr(ord(message.buffer[0]) | PackFlags.LL_RESENT_FLAG) + message.buffer[1:]\n",
 "        (flags,) = struct.unpack('>B', message.buffer[:1])\n        send_buffer = struct.pack('>B', flags | PackFlags.LL_RESENT_FLAG) + message.buffer[1:]\n"),
("                send_flags = ord(msg_buf[0])\n                packet_id = self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, 1, endian_type=EndianType.BIG)\n",
 "                send_flags, packet_id = struct.unpack('>BI', msg_buf[:5])\n"),
("        if reliable == True:\n            circuit.prepare_packet(packet, PackFlags.LL_RELIABLE_FLAG, retries)\n            packet_id = packet.packet_id\n            self.circuit_manager.unacked_circuits[(host.ip, host.port)] = circuit\n        else:\n            circuit.prepare_packet(packet)\n",
 "        flag = PackFlags.LL_NONE\n        if reliable:\n            flag = PackFlags.LL_RELIABLE_FLAG\n            self.circuit_manager.unacked_circuits[(host.ip, host.port)] = circuit\n        circuit.prepare_packet(packet, flag, reliable and retries or 0)\n        packet_id = packet.packet_id\n"),
("            for unacked_packet in circuit.unacked_packets.values():\n","            for unacked_packet in sorted(circuit.unacked_packets.values(), key=lambda p: p.packet_id):\n"),
("                if acks_this_packet > 250:\n","                if acks_this_packet >= 100:\n"),
("                    msg = Message('PacketAck')\n\n                block","                    msg = Message('PacketAck')\n                    batch = msg\n\n                block"))

ed('message/udpserializer.py',
("        msg_buffer = ''\n        bytes = 0\n\n        #put","        parts = []\n        bytes = 0\n        msg_buffer = ''\n\n        #put"),
("            msg_buffer += packed_block\n            bytes += block_size\n","            parts.append(packed_block)\n            bytes += block_size\n\n        msg_buffer += ''.join(parts)\n"),
("                data = self.packer.pack_data(var_data, v.type)\n\n                if variable == None:\n                    raise exc.MessageSerializationError(variable.name, \"variable value is not set\")\n","                data = self.packer.pack_data(var_data, v.type)\n"),
("                    if var_size == 1:\n                        block_buffer += self.packer.pack_data(len(data), MsgType.MVT_U8)\n                        #block_buffer += struct.pack('>B', var_size)\n                    elif var_size == 2:\n                        block_buffer += self.packer.pack_data(len(data), MsgType.MVT_U16)\n                        #block_buffer += struct.pack('>H', var_size)\n                    elif var_size == 4:\n                        block_buffer += self.packer.pack_data(len(data), MsgType.MVT_U32)\n                        #block_buffer += struct.pack('>I', var_size)\n                    else:\n                        raise",
 "                    form = {1: '<B', 2: '<H', 4: '<I'}.get(var_size)\n                    if form:\n                        block_buffer += struct.pack(form, len(data))\n                    else:\n                        raise"))

ed('message/udpdeserializer.py',
("            while acks > 0:\n                ack_packet_id = self.unpacker.unpack_data(ack_data, MsgType.MVT_U32, \\\n                                                          start_index=ack_pos)\n                ack_pos += sizeof(MsgType.MVT_U32)\n                packet.add_ack(ack_packet_id)\n                acks -= 1\n",
 "            for ack_pos in range(0, ack_start, sizeof(MsgType.MVT_U32)):\n                packet.add_ack(self.unpacker.unpack_data(ack_data, MsgType.MVT_U32, start_index=ack_pos))\n"),
("            ack_pos = 0\n",""),
("        frequency = self.__decode_frequency(header)\n        num = self.__decode_num(header)\n\n        result = self.template_dict.get_template_by_pair(frequency, num)\n\n        return result\n",
 "        return self.template_dict.get_template_by_pair(self.__decode_frequency(header), self.__decode_num(header))\n"))

ed('message/message_dot_xml.py',
("class MessageDotXML(object):","_parsed = {}\n\ndef _parse(text):\n    if text not in _parsed:\n        _parsed[text] = llsd.parse(text)\n    return _parsed[text]\n\nclass MessageDotXML(object):"),
("        self.parsed_llsd = llsd.parse(self.raw_llsd)","        self.parsed_llsd = _parse(self.raw_llsd)"),
("            if self.messages[msg_name]['flavor'] == 'template':\n                return True\n            else:\n                return False\n        else:\n            return True","            return self.messages[msg_name]['flavor'] == 'template'\n        return True\n"))

ed('message_manager.py',
("from logging import getLogger\n","from collections import deque\nfrom logging import getLogger\n"),
("        self.outgoing_queue = []\n","        self.outgoing_queue = deque()\n"),
("            self.outgoing_queue.insert(0, (message, reliable))","            self.outgoing_queue.appendleft((message, reliable))"),
("self.outgoing_queue.pop(0)","self.outgoing_queue.popleft()"),
("            if self.udp_dispatcher.has_unacked():\n                self.udp_dispatcher.process_acks()\n","            self.udp_dispatcher.process_acks()\n"),
("        self._is_running = False\n\n        #stops event_queue\n\n        if self.event_queue != None:\n            self.event_queue.stop()\n","        if self.event_queue != None:\n            self.event_queue.stop()\n\n        self._is_running = False\n"))

ed('event_queue.py',
("            while not self.stopped:\n\n                try:\n                    api.sleep(self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL)\n","            interval = self.settings.REGION_EVENT_QUEUE_POLL_INTERVAL\n\n            while True:\n\n                if self.stopped:\n                    break\n\n                try:\n                    api.sleep(interval)\n"),
("                        self.result = {'id': self.last_id}\n","                        self.result = {'id': self.last_id, 'events': []}\n"),
("                # this returns packets\n                parsed_data = self._decode_eq_result(data)\n\n                for packet in parsed_data:\n","                # this returns packets\n                for packet in self._decode_eq_result(data) or ():\n"),
("            if self.last_id != -1:\n                # Need","            if not self.last_id == -1:\n                # Need"),
("                for i in data:\n\n                    if i == 'id':\n\n                        #last_id = data[i]\n                        pass\n\n                    else:\n\n                        for message in data[i]:\n","                if True:\n\n                    if True:\n\n                        for message in data['events']:\n"),
("                                for var in message['body']:\n\n                                    var_data = Variable(var, message['body'][var], -1)\n                                    block.add_variable(var_data)\n","                                for var, value in message['body'].items():\n                                    block.add_variable(Variable(var, value, -1))\n"))

ed('caps.py',
("        try:\n            response = self.restclient.GET(self.public_url, headers=custom_headers)\n        except HTTPError, e:\n            if e.code==404:\n                raise ResourceNotFound(self.public_url)\n            else:\n                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method=\"GET\")\n",
 "        response = self._call('GET', lambda: self.restclient.GET(self.public_url, headers=custom_headers))\n"),
("        try:\n            response = self.restclient.POST(self.public_url, serialized_payload, headers=headers)\n        except HTTPError, e:\n            if e.code==404:\n                raise ResourceNotFound(self.public_url)\n            else:\n                raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method=\"POST\")\n",
 "        response = self._call('POST', lambda: self.restclient.POST(self.public_url, serialized_payload, headers=headers))\n"),
("    def POST_CUSTOM(self, headers, payload):","    def _call(self, method, request):\n        try:\n            return request()\n        except HTTPError, e:\n            if e.code==404:\n                raise ResourceNotFound(self.public_url)\n            raise ResourceError(self.public_url, e.code, e.msg, e.fp.read(), method=method)\n\n    def POST_CUSTOM(self, headers, payload):"),
("        headers = {\"Content-type\" : content_type}\n        headers.update(custom_headers)  # give the user the ability to add headers \n","        headers = dict([(\"Content-type\", content_type)] + custom_headers.items())\n"),
("        caps = {}\n        for name in names:\n            # TODO: some caps might be seed caps, how do we know? \n            caps[name]=Capability(name, parsed_result[name], self.restclient)\n\n        return caps\n",
 "        return dict([(name, Capability(name, parsed_result[name], restclient=self.restclient)) for name in names])\n"))

ed('network/stdlib_client.py',
("        request = urllib2.Request(url, headers=headers)\n        try:\n            result = urllib2.urlopen(request)\n        except urllib2.HTTPError, error:\n            raise HTTPError(error.code,error.msg,error.fp)\n\n        # convert back to webob\n        headerlist = result.headers.items()\n        status = \"%s %s\" %(result.code, result.msg)\n        response = Response(body = result.read(), status = status, headerlist = headerlist)\n        return response\n\n    def POST",
 "        return self._open(urllib2.Request(url, None, headers))\n\n    def POST"),
("        request = urllib2.Request(url, data, headers=headers)\n        try:","        return self._open(urllib2.Request(url, data, headers))\n\n    def _open(self, request):\n        try:"))

ed('network/net.py',
("        try:\n            data, addr = sock.recvfrom(buf)\n            #print \"Received data: \" + repr(data)\n        except:\n            return '', 0\n","        try:\n            got = sock.recvfrom(buf)\n        except:\n            return '', 0\n        data, addr = got[0], got[1]\n"),
("        self.sender = Host((addr[0], addr[1]))\n","        self.sender = Host(addr)\n"))

ed('helpers.py',
("        while self.enabled and now - start < self.duration:\n","        end = start + self.duration\n        while self.enabled and now < end:\n"))
print('ok')
