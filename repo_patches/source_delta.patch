From 1625e91e6ea0219e0e11fd1f4433ae80fa102c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 01/31] fix: do not share one sender Host between all received
 datagrams

Circuits store the Host returned by get_sender(); mutating it on every
receive redirected acks for one peer to whichever peer sent last.
---
 pyogp/lib/base/network/net.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/network/net.py b/pyogp/lib/base/network/net.py
index 3a4274b..94aca2b 100644
--- a/pyogp/lib/base/network/net.py
+++ b/pyogp/lib/base/network/net.py
@@ -49,8 +49,9 @@ class NetUDPClient(object):
         except:
             return '', 0
         #print self.sender
-        self.sender.ip = addr[0]
-        self.sender.port = addr[1]
+        # a fresh Host per datagram: circuits keep hold of the Host they were
+        # created with, so it must not change when another peer sends to us
+        self.sender = Host((addr[0], addr[1]))
         return data, len(data)
 
     def start_udp_connection(self):
-- 
2.43.0


From 9155a5950996338e699817d89ec5625de794a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 02/31] fix: pass a custom message template to the udp
 serializer by keyword

The first positional parameter of TemplateDictionary is a template list.
---
 pyogp/lib/base/message/udpserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 452bdfe..d76b395 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -40,7 +40,7 @@ class UDPMessageSerializer(object):
         """initialize the adapter"""
         self.context = None	# the UDPMessage
 
-        self.template_dict = TemplateDictionary(message_template)
+        self.template_dict = TemplateDictionary(message_template = message_template)
         self.current_template = None
         self.packer = DataPacker()
 
-- 
2.43.0


From 96f74d097ad44c5cec58525913669c4f890c66aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 03/31] fix: do not append a NUL to fixed size and ip address
 fields

The extra byte shifted every field after them, so no peer could decode
the message.
---
 pyogp/lib/base/message/data_packer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/data_packer.py b/pyogp/lib/base/message/data_packer.py
index 6897298..669ccd4 100644
--- a/pyogp/lib/base/message/data_packer.py
+++ b/pyogp/lib/base/message/data_packer.py
@@ -29,13 +29,13 @@ from pyogp.lib.base.helpers import Helpers
 class DataPacker(object):
     def __init__(self):
         self.packer = {}
-        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_string)  #:DE 23oct2008 added handler for MVT_FIXED
+        self.packer[MsgType.MVT_FIXED]          = ('>',self.__pack_raw)  #:DE 23oct2008 added handler for MVT_FIXED
         self.packer[MsgType.MVT_VARIABLE]       = ('>',self.__pack_string)
         self.packer[MsgType.MVT_S8]             = ('>','b')
         self.packer[MsgType.MVT_U8]             = ('>','B')
         self.packer[MsgType.MVT_BOOL]           = ('>','B')
         self.packer[MsgType.MVT_LLUUID]         = ('>',self.__pack_uuid)
-        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_string)
+        self.packer[MsgType.MVT_IP_ADDR]        = ('>',self.__pack_raw)
         self.packer[MsgType.MVT_IP_PORT]        = ('>','H')
         self.packer[MsgType.MVT_U16]            = ('<','H')
         self.packer[MsgType.MVT_U32]            = ('<','I')
@@ -93,6 +93,12 @@ class DataPacker(object):
         else:
             return uuid.bytes
 
+    def __pack_raw(self, endian, data):
+        """Return fixed size binary data as is, it is not null terminated."""
+        if isinstance(data, unicode):
+            data = data.encode('utf-8')
+        return data
+
     def __pack_string(self, endian, pack_string):
         """Return the string UTF-8 encoded and null terminated."""
         if pack_string == None:
-- 
2.43.0


From 4d41f0b66a5922f1072a7c469f5282381b363894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 04/31] fix: an unsubscribe during notify no longer skips
 another subscriber

---
 pyogp/lib/base/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/events.py b/pyogp/lib/base/events.py
index 45f45a9..518acf4 100644
--- a/pyogp/lib/base/events.py
+++ b/pyogp/lib/base/events.py
@@ -52,7 +52,8 @@ class Event(object):
 
     def notify(self, args):
 
-        for instance, inner_args, kwargs in self.subscribers:
+        # iterate over a copy, handlers may subscribe or unsubscribe
+        for instance, inner_args, kwargs in self.subscribers[:]:
 
             try:
 
-- 
2.43.0


From 0d377fb0fc72bf2f27a01bea655dcb45958bfeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 05/31] fix: errors in Event.unsubscribe and
 Event.clearSubscribers

Unsubscribing a handler that is not subscribed raised NameError rather than
ValueError, and lists have no clear().
---
 pyogp/lib/base/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/events.py b/pyogp/lib/base/events.py
index 518acf4..f2fa15c 100644
--- a/pyogp/lib/base/events.py
+++ b/pyogp/lib/base/events.py
@@ -46,7 +46,7 @@ class Event(object):
 
         except:
 
-            raise ValueError("Handler '%s' is not subscribed to this event." %s (handler))
+            raise ValueError("Handler '%s' is not subscribed to this event." % (handler,))
 
         return self
 
@@ -71,7 +71,7 @@ class Event(object):
 
     def clearSubscribers(self):
 
-        self.subscribers.clear()
+        del self.subscribers[:]
         return self
 
     def getSubscribers(self):
-- 
2.43.0


From 282ebe0f2e08240a3bd1da4378181be3cb7c4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 06/31] fix: stop_monitors without an event queue, or before it
 is running

It raised AttributeError when there is no event queue, and never stopped an
event queue whose coroutine had been spawned but not yet scheduled.
---
 pyogp/lib/base/message_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 2cf8f4b..facf249 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -140,8 +140,8 @@ class MessageManager(object):
 
         #stops event_queue
 
-        if self.event_queue._running:
-            self.event_queue.stop()        
+        if self.event_queue != None:
+            self.event_queue.stop()
 
     def monitor_outgoing_queue(self):
         """  """
-- 
2.43.0


From 6e90edc3093ff8c4848c5e866e2cbaa2d074a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 07/31] fix: hand the settings of the MessageManager to its
 event queue client

---
 pyogp/lib/base/message_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index facf249..8c4a25b 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -97,6 +97,7 @@ class MessageManager(object):
         self.capabilities = capabilities
         if self.capabilities.has_key('EventQueueGet'):
             self.event_queue = EventQueueClient(self.capabilities['EventQueueGet'], 
+                                                settings = self.settings,
                                                 message_handler = self.message_handler, 
                                                 host = self.host)
         else:
-- 
2.43.0


From 4536edb9fd020c76f31448fdefed69ea291b55c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 08/31] fix: Capability.GET passes the custom headers on

---
 pyogp/lib/base/caps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/caps.py b/pyogp/lib/base/caps.py
index 0d05b33..b7df45d 100644
--- a/pyogp/lib/base/caps.py
+++ b/pyogp/lib/base/caps.py
@@ -71,7 +71,7 @@ class Capability(object):
         if self.settings.ENABLE_CAPS_LOGGING: logger.debug('%s: GETing %s' %(self.name, self.public_url))
 
         try:
-            response = self.restclient.GET(self.public_url)
+            response = self.restclient.GET(self.public_url, headers=custom_headers)
         except HTTPError, e:
             if e.code==404:
                 raise ResourceNotFound(self.public_url)
-- 
2.43.0


From 016b0788f8cfd21be002287893fcd47bd5b8fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 09/31] fix: only ack packets we do not parse when they were
 sent reliable

---
 pyogp/lib/base/message/udpdispatcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index bb4325d..b0a8311 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -142,7 +142,8 @@ class UDPDispatcher(object):
                 packet_id = self.data_unpacker.unpack_data(msg_buf, MsgType.MVT_U32, 1, endian_type=EndianType.BIG)
 
                 # queue the ack up
-                circuit.collect_ack(packet_id)
+                if send_flags & PackFlags.LL_RELIABLE_FLAG:
+                    circuit.collect_ack(packet_id)
 
                 return None
 
-- 
2.43.0


From 8ed35dc0da8dcd78ad326fe05d14f7878c589d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 10/31] fix: a malformed packet or a raising handler ended the
 udp connection

The exception escaped the coroutine which pumps the socket and the outgoing
queue, silently stopping both.
---
 pyogp/lib/base/message_manager.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 8c4a25b..df2b1da 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -173,16 +173,23 @@ class MessageManager(object):
         while self._is_running:
             api.sleep(0)
             msg_buf, msg_size = self.udp_dispatcher.udp_client.receive_packet(self.udp_dispatcher.socket)
-            recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
-                                                            msg_buf, 
-                                                            msg_size)
+            try:
+                recv_packet = self.udp_dispatcher.receive_check(self.udp_dispatcher.udp_client.get_sender(),
+                                                                msg_buf, 
+                                                                msg_size)
+            except Exception, error:
+                # neither a malformed packet nor a failing handler may end the connection
+                logger.warning("Error handling a packet from %s: %s" % (self.udp_dispatcher.udp_client.get_sender(), error))
             #self.incoming_queue.append(recv_packet)
             if self.udp_dispatcher.has_unacked():
                 self.udp_dispatcher.process_acks()
 
             while len(self.outgoing_queue) > 0:                
                 (packet, reliable) = self.outgoing_queue.pop(0)
-                self.send_udp_message(packet, reliable)
+                try:
+                    self.send_udp_message(packet, reliable)
+                except Exception, error:
+                    logger.warning("Error sending a packet to %s: %s" % (self.host, error))
 
         logger.debug("Stopped the UDP connection for %s" % (self.host))
 
-- 
2.43.0


From 8e1e4f347aaedab48fdd60eeecbe0a679d8b7025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 11/31] fix: append the acks to the packets which announce them

Outgoing packets were flagged as carrying acks without ever carrying them, so
the receiver cut the end of the message off instead.
---
 pyogp/lib/base/message/circuit.py       | 7 ++++++-
 pyogp/lib/base/message/udpserializer.py | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index 8d336f0..c3fd403 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -72,6 +72,10 @@ class Circuit(object):
 
         packet.packet_id = self.next_packet_id()
 
+        #a message can be sent more than once, forget the acks it carried before
+        packet.acks = []
+        packet.num_acks = 0
+
         #if we have acks that we can add on, add them
         ack_count = len(self.acks)
         if ack_count > 0 and packet.name != "PacketAck":
@@ -79,7 +83,8 @@ class Circuit(object):
 
             #also, sends as many acks as we can onto the end of the packet
             #acks are just the packet_id that we are acking
-            for packet_id in self.acks:
+            #(their count is sent as a single byte)
+            for packet_id in self.acks[:255]:
                 packet.add_ack(packet_id)
 
         if flag == PackFlags.LL_RELIABLE_FLAG:
diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index d76b395..5cce65d 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -21,7 +21,7 @@ import struct
 from logging import getLogger
 
 # pygop
-from msgtypes import MsgType, MsgBlockType, EndianType
+from msgtypes import MsgType, MsgBlockType, EndianType, PackFlags
 from data_packer import DataPacker
 from template_dict import TemplateDictionary
 from pyogp.lib.base import exc
@@ -102,6 +102,13 @@ class UDPMessageSerializer(object):
             # testing a hack to let RegionHandshakeReply get parsed
             msg_buffer += struct.pack(">I", 0)
 
+        # the acks flagged in the header are appended to the end of the packet,
+        # followed by their count
+        if self.context.send_flags & PackFlags.LL_ACK_FLAG:
+            for packet_id in self.context.acks:
+                msg_buffer += self.packer.pack_data(packet_id, MsgType.MVT_U32)
+            msg_buffer += self.packer.pack_data(len(self.context.acks), MsgType.MVT_U8)
+
         self.message_buffer = msg_buffer
 
         return msg_buffer
-- 
2.43.0


From 51aed3f044e7233a6b198615b4abe995900d87b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 12/31] fix: acks never retired the reliable messages they
 acknowledge

The ids in a PacketAck were ignored altogether, and acks appended to a packet
were ignored when nothing subscribes to that packet.
---
 pyogp/lib/base/message/circuit.py         | 5 +++++
 pyogp/lib/base/message/udpdeserializer.py | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index c3fd403..c71d022 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -95,6 +95,11 @@ class Circuit(object):
         for ack_packet_id in packet.acks:
             self.ack_reliable_packet(ack_packet_id)
 
+        #acks also arrive in a message of their own
+        if packet.name == 'PacketAck':
+            for block in packet.blocks.get('Packets', []):
+                self.ack_reliable_packet(block['ID'])
+
         if packet.reliable == True:
             self.collect_ack(packet.packet_id)
 
diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 5ad6c4f..10ead03 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -121,7 +121,9 @@ class UDPMessageDeserializer(object):
                 return None
 
             # if the packet is being handled, or if have have disabled deferred packet parsing, handle it!
-            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING:
+            # the acks it carries are always ours to handle
+            if self.message_handler.is_message_handled(self.current_template.name) or not self.settings.ENABLE_DEFERRED_PACKET_PARSING \
+            or self.current_template.name == 'PacketAck' or temp_acks:
 
                 try:
                     return self.__decode_data(msg_buff)
-- 
2.43.0


From 22651fa6ad5d4d63b37b6effa9dba5afc5de5858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 13/31] fix: resend reliable messages which were not acked

Circuits with unacked messages were never registered for resending, and the
resend itself swapped its arguments, used attributes which do not exist and
would have allocated a new packet id. Keep the buffer of reliable messages
and send it again, with the resent flag set, under the same packet id.
Messages which can not be serialized are not kept.
---
 pyogp/lib/base/message/circuit.py       | 14 +++++++
 pyogp/lib/base/message/udpdispatcher.py | 53 +++++++++++++++++--------
 2 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/pyogp/lib/base/message/circuit.py b/pyogp/lib/base/message/circuit.py
index c71d022..f41f372 100644
--- a/pyogp/lib/base/message/circuit.py
+++ b/pyogp/lib/base/message/circuit.py
@@ -16,6 +16,8 @@ or in
 $/LicenseInfo$
 """
 
+import copy
+
 from msgtypes import PackFlags
 
 class Host(object):
@@ -126,11 +128,20 @@ class Circuit(object):
         #if it can be resent/retried (not final) add it to the unack list
         #if 'retries' in params:
         #    packet.retries = params['retries']
+        #keep a copy, the caller is free to send the same message again
+        packet = copy.copy(packet)
+        packet.buffer = None
         self.unacked_packets[packet.packet_id] = packet
         #otherwise, it can't be resent to get acked
         #else:
         #self.final_retry_packets[packet.packet_id] = packet
 
+    def set_final_retry(self, packet_id):
+        """ a packet we want to be acked will not be resent any more """
+        self.final_retry_packets[packet_id] = self.unacked_packets.pop(packet_id)
+        self.unack_packet_count -= 1
+        self.final_packet_count += 1
+
 class CircuitManager(object):
     """ Manages a collection of circuits and provides some higher-level
         functionality to do so. """
@@ -159,6 +170,9 @@ class CircuitManager(object):
         if (host.ip, host.port) in self.circuit_map:
             del self.circuit_map[(host.ip, host.port)]
 
+        if (host.ip, host.port) in self.unacked_circuits:
+            del self.unacked_circuits[(host.ip, host.port)]
+
     def is_circuit_alive(self, host):
         if (host.ip, host.port) not in self.circuit_map:
             return False
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index b0a8311..a4bc1c7 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -179,13 +179,27 @@ class UDPDispatcher(object):
 
     def send_retry(self, message, host):
         """ This is a retry because we didn't get acked """
-        #sets up the message so send_message will add the RETRY flag to it
-        return self.__send_message(host, message, retrying=True)                
+        #sends what was sent before, under the same packet id, with the RETRY
+        #flag added to it
+        if host.is_ok() == False or message.buffer == None:
+            return
+
+        send_buffer = chr(ord(message.buffer[0]) | PackFlags.LL_RESENT_FLAG) + message.buffer[1:]
+
+        try:
+            self.udp_client.send_packet(self.socket, send_buffer, host)
+        except Exception, error:
+            logger.warning("Error trying to resend packet %s to %s: %s" % (message.packet_id, host, error))
+            return
+
+        self.packets_out += 1
+
+        return send_buffer
 
     def send_message(self, message, host):
         return self.__send_message(message, host)
 
-    def __send_message(self, message, host, reliable=False, retries=0, retrying=False):
+    def __send_message(self, message, host, reliable=False, retries=0):
         """ Sends the message that is currently built to the desired host """
         #make sure host is OK (ip and address aren't null)
         if host.is_ok() == False:
@@ -205,16 +219,20 @@ class UDPDispatcher(object):
 
         if reliable == True:
             circuit.prepare_packet(packet, PackFlags.LL_RELIABLE_FLAG, retries)
-            if circuit.unack_packet_count <= 0:
-                self.circuit_manager.unacked_circuits[host] = circuit
-        elif retrying == True:
-            circuit.prepare_packet(packet, PackFlags.LL_RESENT_FLAG)
+            packet_id = packet.packet_id
+            self.circuit_manager.unacked_circuits[(host.ip, host.port)] = circuit
         else:
             circuit.prepare_packet(packet)
 
+        send_buffer = None
+
         try:
             send_buffer = self.udp_serializer.serialize(packet)
 
+            if reliable == True and send_buffer != None:
+                #keep what we send, it may have to be resent
+                circuit.unacked_packets[packet_id].buffer = send_buffer
+
             if self.settings.ENABLE_UDP_LOGGING:
                 if packet.name in self.settings.UDP_SPAMMERS and self.settings.DISABLE_SPAMMERS:
                     pass
@@ -240,6 +258,10 @@ class UDPDispatcher(object):
             pass
 
         except Exception, error:
+            if reliable == True and send_buffer == None:
+                #it can not be sent, so it will never be acked either
+                circuit.ack_reliable_packet(packet_id)
+
             logger.warning("Error trying to serialize the following packet: %s" % (packet))
             traceback.print_exc()
 
@@ -263,18 +285,17 @@ class UDPDispatcher(object):
 
             for unacked_packet in circuit.unacked_packets.values():
 
-                unacked_packet.retries -= 1
-                #is this correct? should it be serialized or something?
-                #self.reset_send_buffer()
+                #sending may yield, the ack can have arrived in the meantime
+                if unacked_packet.packet_id not in circuit.unacked_packets:
+                    continue
 
-                self.send_buffer = ''
-                self.send_buffer += unacked_packet.buffer
-                self.send_retry(unacked_packet.host, unacked_packet.buffer)
+                unacked_packet.retries -= 1
 
                 if unacked_packet.retries <= 0:
 
-                    circuit.final_retry_packets[unacked_packet.packet_id] = unacked_packet
-                    del circuit.unacked_packets[unacked_packet.packet_id]
+                    circuit.set_final_retry(unacked_packet.packet_id)
+
+                self.send_retry(unacked_packet, circuit.host)
 
             #final retries aren't resent, they are just forgotten about. boo
             #for unacked_packet in circuit.final_retry_packets.values():
@@ -317,7 +338,7 @@ class UDPDispatcher(object):
 
     def has_unacked(self):
         for circuit in self.circuit_manager.circuit_map.values():
-            if len(circuit.acks) > 0:
+            if len(circuit.acks) > 0 or len(circuit.unacked_packets) > 0:
                 return True
 
         return False
-- 
2.43.0


From aeecdb78a7f1eafc46a3ef6759ba735f6acf3870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 14/31] fix: do not handle the last event queue result again
 after a failed poll

---
 pyogp/lib/base/event_queue.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 0c06fe3..24638ac 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -189,6 +189,9 @@ class EventQueueClient(object):
                     try:
                         self.result = self.cap.POST(self.data)
                     except Exception, error:
+                        # there is no new result: neither handle the last one again,
+                        # nor forget which one to ack
+                        self.result = {'id': self.last_id}
                         if self.settings.ENABLE_HOST_LOGGING:
                             host_string = ' from (%s)' % self.host
                         else:
-- 
2.43.0


From 844bb2c238ec876f1c7ede168dc500416028bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 15/31] fix: an error in the last ack left the event queue
 running for ever

---
 pyogp/lib/base/event_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 24638ac..4777e65 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -212,7 +212,10 @@ class EventQueueClient(object):
                 # Need to ack the last message received, otherwise it will be
                 # resent if we re-connect to the same queue
                 self.data = {'ack':self.last_id, 'done':True}
-                self.cap.POST(self.data)
+                try:
+                    self.cap.POST(self.data)
+                except Exception, error:
+                    logger.warning("Error in the last post to the event queue. Error was: %s" % (error))
 
             self._running = False
 
-- 
2.43.0


From 86898ce99d3171fa3df3b7dbf0788a08dc302843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 16/31] fix: a raising handler discarded the rest of an event
 queue result

---
 pyogp/lib/base/event_queue.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 4777e65..50db955 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -257,7 +257,11 @@ class EventQueueClient(object):
                 parsed_data = self._decode_eq_result(data)
 
                 for packet in parsed_data:
-                    self.message_handler.handle(packet)
+                    try:
+                        self.message_handler.handle(packet)
+                    except Exception, error:
+                        # the others have been received too
+                        logger.warning("Error handling %s from the event queue: %s" % (packet.name, error))
 
         except Exception, error:
 
-- 
2.43.0


From 083f4f88de03ade552d09bf490acc433314c0e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 17/31] fix: the agent domain event queue could not be polled

It used attributes which do not exist, and was never acked.
---
 pyogp/lib/base/event_queue.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index 50db955..a62ac56 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -163,7 +163,7 @@ class EventQueueClient(object):
 
     def _processRegionEventQueue(self):
 
-        if self.cap.name != 'EventQueueGet':
+        if self.cap.name not in ('EventQueueGet', 'event_queue'):
             raise RegionCapNotAvailable('EventQueueGet')
             # well then get it...?
         else:
@@ -228,18 +228,8 @@ class EventQueueClient(object):
             raise RegionCapNotAvailable('event_queue')
             # change the exception here (add a new one)
         else:
-            self._running = True
-            while not self.stopped:
-
-                api.sleep(self.settings.agentdomain_event_queue_interval)
-
-                self.result = self.capabilities['event_queue'].POST(self.data)
-
-                if self.result != None: self.last_id = self.result['id']
-
-                self._parse_result(self.result)
-
-            self._running = False
+            # it is polled and acked just as the one of a region
+            self._processRegionEventQueue()
 
     def _parse_result(self, data):
         """ tries to parse the llsd response from an event queue request. 
-- 
2.43.0


From 01e25a4ee8b43797d3bc98e57bfad1904f0fde50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 18/31] fix: do not read appended acks as the end of a
 truncated message

---
 pyogp/lib/base/message/udpdeserializer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 10ead03..97ed972 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -247,6 +247,9 @@ class UDPMessageDeserializer(object):
                 packet.add_ack(ack_packet_id)
                 acks -= 1
 
+            #the acks are not part of the message
+            data = data[:msg_size-ack_start]
+
         #RELIABLE - means the message wants to be acked by us
         if packet.send_flags & PackFlags.LL_RELIABLE_FLAG:
             packet.reliable = True
-- 
2.43.0


From 5ec7a58764bf324075b620d67cdb254036bd35d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:18 +0000
Subject: [PATCH 19/31] fix: apply a custom message.xml to the udp messages

It was parsed and stored, but never handed to the parsers which validate
messages against it.
---
 pyogp/lib/base/message/udpdispatcher.py | 6 ++++--
 pyogp/lib/base/message_manager.py       | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index a4bc1c7..cc55d54 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -100,8 +100,10 @@ class UDPDispatcher(object):
         # set up our parsers
         self.udp_deserializer = UDPMessageDeserializer(self.message_handler, 
                                                         self.settings,
-                                                        message_template = self.message_template)
-        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template)
+                                                        message_template = self.message_template,
+                                                        message_xml = self.message_xml)
+        self.udp_serializer = UDPMessageSerializer(message_template = self.message_template,
+                                                   message_xml = self.message_xml)
 
     def find_circuit(self, host):
         circuit = self.circuit_manager.get_circuit(host)
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index df2b1da..2a1de8e 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -110,7 +110,8 @@ class MessageManager(object):
 
         self.udp_dispatcher = UDPDispatcher(settings = self.settings,
                                             message_handler = self.message_handler,
-                                            message_template = self.message_template)
+                                            message_template = self.message_template,
+                                            message_xml = self.message_xml)
 
         # if start parameter = True, kick off the queue monitors
         if start_monitors:
-- 
2.43.0


From 9c1fb6329092fe8ed6989c9f48091b05dcd6353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 20/31] fix: some unparsable LLSD raised IndexError or
 ValueError instead of DeserializationFailed

---
 pyogp/lib/base/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 518e9df..2e6c79d 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -264,7 +264,8 @@ class LLSDDeserializer(object):
 
         try:
             r = llsd.parse(data)
-        except llsd.LLSDParseError, e:
+        except Exception, e:
+            # besides LLSDParseError, llbase lets e.g. IndexError and ValueError escape
             raise DeserializationFailed(data, str(e))
         if r==False:
             raise DeserializationFailed(data, 'result was False')
-- 
2.43.0


From 12f06fd98068edce1e2ede72991bac9938a94dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 21/31] fix: an empty event queue result lost the id of the
 last batch

---
 pyogp/lib/base/event_queue.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyogp/lib/base/event_queue.py b/pyogp/lib/base/event_queue.py
index a62ac56..2c47409 100644
--- a/pyogp/lib/base/event_queue.py
+++ b/pyogp/lib/base/event_queue.py
@@ -198,10 +198,9 @@ class EventQueueClient(object):
                             host_string = ''
                         logger.info("Received an error we ought not care about%s: %s" % (host_string, error))
 
+                    # an empty result leaves the id which is to be acked alone
                     if self.result != None: 
                         self.last_id = self.result['id']
-                    else:
-                        self.last_id = -1
 
                     self._parse_result(self.result)
 
-- 
2.43.0


From 416c7c71df2a044b53f0f3882c7fbab46e6d6652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 22/31] fix: reporting a message with non ascii text raised
 UnicodeEncodeError

A message which could not be sent is written to the log; doing so raised
UnicodeEncodeError out of the error handling of UDPDispatcher when the
message carries unicode text outside of ascii.
---
 pyogp/lib/base/message/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyogp/lib/base/message/template.py b/pyogp/lib/base/message/template.py
index 52a033f..6cd157c 100644
--- a/pyogp/lib/base/message/template.py
+++ b/pyogp/lib/base/message/template.py
@@ -94,6 +94,8 @@ class MsgVariableData(object):
             return self.data
         elif self.var_type == MsgType.MVT_FIXED:
             return str(struct.unpack('h'*(len(self.data)/2), self.data))
+        elif isinstance(self.data, unicode):
+            return self.data.encode('utf-8')
         else: 
             return str(self.data)
 
-- 
2.43.0


From 5bb60ab5713031b3629877a64883b2a4fc9c1b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 23/31] fix: a raising handler of an outgoing PacketAck ended
 the udp connection

With HANDLE_OUTGOING_PACKETS the acks are handed to their subscribers as well;
an exception raised there escaped from process_acks and ended the pump.
---
 pyogp/lib/base/message/udpdispatcher.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index cc55d54..cf18faf 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -329,15 +329,23 @@ class UDPDispatcher(object):
 
                 if acks_this_packet > 250:
 
-                    self.send_message(msg, circuit.host)
+                    self.__send_ack(msg, circuit.host)
                     acks_this_packet = 0
 
             if acks_this_packet > 0:
 
-                self.send_message(msg, circuit.host)
+                self.__send_ack(msg, circuit.host)
 
             circuit.acks = []
 
+    def __send_ack(self, message, host):
+        """ sends a PacketAck, a failing handler may not end the connection """
+
+        try:
+            self.send_message(message, host)
+        except Exception, error:
+            logger.warning("Error sending acks to %s: %s" % (host, error))
+
     def has_unacked(self):
         for circuit in self.circuit_manager.circuit_map.values():
             if len(circuit.acks) > 0 or len(circuit.unacked_packets) > 0:
-- 
2.43.0


From da64c721cd42ce57ab07d9c9d31da873e22a172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 24/31] fix: messages numbered from 2**31 on could not be sent

---
 pyogp/lib/base/message/udpserializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpserializer.py b/pyogp/lib/base/message/udpserializer.py
index 5cce65d..43deaf9 100644
--- a/pyogp/lib/base/message/udpserializer.py
+++ b/pyogp/lib/base/message/udpserializer.py
@@ -76,7 +76,7 @@ class UDPMessageSerializer(object):
 
         #set packet ID
         msg_buffer += self.packer.pack_data(self.context.packet_id, \
-                                                  MsgType.MVT_S32, \
+                                                  MsgType.MVT_U32, \
                                                   endian_type=EndianType.BIG)
 
         #pack in the offset to the data. NOTE: for 1 byte, endian doesn't matter
-- 
2.43.0


From fbfede5fa4d7e0a1c46b9f47841ed9c35d2929e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:58 +0000
Subject: [PATCH 25/31] fix: datagrams with an extra header were taken for
 other messages

---
 pyogp/lib/base/message/udpdeserializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 97ed972..9315af9 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -155,7 +155,9 @@ class UDPMessageDeserializer(object):
         if PacketLayout.PACKET_ID_LENGTH >= len(message_buffer):
             raise exc.MessageDeserializationError("packet length", "template mismatch")
 
-        header = message_buffer[PacketLayout.PACKET_ID_LENGTH:12]
+        # the message follows the extra header, if there is any
+        start = PacketLayout.PACKET_ID_LENGTH + ord(message_buffer[PacketLayout.PHL_OFFSET])
+        header = message_buffer[start:start+6]
         self.current_template = self.__decode_header(header)
         if self.current_template != None:
             return True
-- 
2.43.0


From 0142d16f104be9db43211e559a162714e08e9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 26/31] fix: acks collected while others were being sent were
 lost

---
 pyogp/lib/base/message/udpdispatcher.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index cf18faf..239f2ce 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -313,7 +313,11 @@ class UDPDispatcher(object):
             acks_this_packet = 0
             msg = None
 
-            for packet_id in circuit.acks:
+            #sending may yield, others can be received in the meantime
+            acks = circuit.acks
+            circuit.acks = []
+
+            for packet_id in acks:
 
                 if acks_this_packet == 0:
 
@@ -336,8 +340,6 @@ class UDPDispatcher(object):
 
                 self.__send_ack(msg, circuit.host)
 
-            circuit.acks = []
-
     def __send_ack(self, message, host):
         """ sends a PacketAck, a failing handler may not end the connection """
 
-- 
2.43.0


From 4f2094626174ac66f6c206350f23219f0514d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 27/31] fix: a KeyError raised by a handler was taken for a
 message without handlers

---
 pyogp/lib/base/message/message_handler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/message_handler.py b/pyogp/lib/base/message/message_handler.py
index 4daa4ac..0ec942c 100644
--- a/pyogp/lib/base/message/message_handler.py
+++ b/pyogp/lib/base/message/message_handler.py
@@ -70,6 +70,12 @@ class MessageHandler(object):
 
             handler = self.handlers[message.name]
 
+        except KeyError:
+            #logger.info("Received an unhandled message: %s" % (message.name))
+            pass
+
+        else:
+
             # Handle the message if we have subscribers
             # Conveniently, this will also enable verbose message logging
             if len(handler) > 0:
@@ -77,10 +83,6 @@ class MessageHandler(object):
 
                 handler(message)
 
-        except KeyError:
-            #logger.info("Received an unhandled message: %s" % (message.name))
-            pass
-
 class MessageHandledNotifier(object):
     """ pseudo subclassing the Event class to treat the message like an event """
 
-- 
2.43.0


From 5f43a3d4eeefeeb4cbfa539cb1bd8cb831d0ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 28/31] fix: show Fixed fields of odd size

---
 pyogp/lib/base/message/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyogp/lib/base/message/template.py b/pyogp/lib/base/message/template.py
index 6cd157c..cda5e32 100644
--- a/pyogp/lib/base/message/template.py
+++ b/pyogp/lib/base/message/template.py
@@ -93,7 +93,7 @@ class MsgVariableData(object):
         if self.var_type == MsgType.MVT_VARIABLE:
             return self.data
         elif self.var_type == MsgType.MVT_FIXED:
-            return str(struct.unpack('h'*(len(self.data)/2), self.data))
+            return str(struct.unpack('h'*(len(self.data)/2) + 'b'*(len(self.data)%2), self.data))
         elif isinstance(self.data, unicode):
             return self.data.encode('utf-8')
         else: 
-- 
2.43.0


From 6324475397f016cb8ec555c229ff1e0ae3c1fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:47 +0000
Subject: [PATCH 29/31] fix: deliver the LLSD answers false and 0

---
 pyogp/lib/base/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyogp/lib/base/helpers.py b/pyogp/lib/base/helpers.py
index 2e6c79d..0c8565a 100644
--- a/pyogp/lib/base/helpers.py
+++ b/pyogp/lib/base/helpers.py
@@ -267,7 +267,8 @@ class LLSDDeserializer(object):
         except Exception, e:
             # besides LLSDParseError, llbase lets e.g. IndexError and ValueError escape
             raise DeserializationFailed(data, str(e))
-        if r==False:
+        # False is also what a document which says so amounts to, and 0 equals it
+        if r is False and not data.lstrip().startswith('<'):
             raise DeserializationFailed(data, 'result was False')
         return r
 
-- 
2.43.0


From f8a3b8f32998e05bea43f80d4325500708fa9ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:58 +0000
Subject: [PATCH 30/31] fix: sessions could not be made with HANDLE_PACKETS off

---
 pyogp/lib/base/message/udpdeserializer.py | 2 +-
 pyogp/lib/base/message/udpdispatcher.py   | 2 +-
 pyogp/lib/base/message_manager.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyogp/lib/base/message/udpdeserializer.py b/pyogp/lib/base/message/udpdeserializer.py
index 9315af9..3fd10b0 100644
--- a/pyogp/lib/base/message/udpdeserializer.py
+++ b/pyogp/lib/base/message/udpdeserializer.py
@@ -62,7 +62,7 @@ class UDPMessageDeserializer(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             self.message_handler = MessageHandler()
 
     def deserialize(self, context):
diff --git a/pyogp/lib/base/message/udpdispatcher.py b/pyogp/lib/base/message/udpdispatcher.py
index 239f2ce..9855597 100644
--- a/pyogp/lib/base/message/udpdispatcher.py
+++ b/pyogp/lib/base/message/udpdispatcher.py
@@ -93,7 +93,7 @@ class UDPDispatcher(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             from pyogp.lib.base.message.message_handler import MessageHandler
             self.message_handler = MessageHandler()
 
diff --git a/pyogp/lib/base/message_manager.py b/pyogp/lib/base/message_manager.py
index 2a1de8e..ebcb115 100644
--- a/pyogp/lib/base/message_manager.py
+++ b/pyogp/lib/base/message_manager.py
@@ -60,7 +60,7 @@ class MessageManager(object):
         # otherwise, grab the defaults
         if message_handler != None:
             self.message_handler = message_handler
-        elif self.settings.HANDLE_PACKETS:
+        else:
             self.message_handler = MessageHandler()
 
         # allow the passing in of message_template.msg as a file handle
-- 
2.43.0


From 92d03319add4a6d1fac51e597ff46693e8cd2561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:21 +0000
Subject: [PATCH 31/31] fix: the dictionary form of a message kept only the
 last of several blocks

---
 pyogp/lib/base/message/message.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyogp/lib/base/message/message.py b/pyogp/lib/base/message/message.py
index b9f2529..3cb86bc 100644
--- a/pyogp/lib/base/message/message.py
+++ b/pyogp/lib/base/message/message.py
@@ -140,10 +140,10 @@ class Message(MessageBase):
                     this_var = _vars.get_variable(avar)
                     new_vars[this_var.name] = this_var.data
  
-            if block in base_repr['body']:
-                base_repr['body'][block].append(new_vars)
-            else: 
-                base_repr['body'][block] = [new_vars]
+                if block in base_repr['body']:
+                    base_repr['body'][block].append(new_vars)
+                else: 
+                    base_repr['body'][block] = [new_vars]
 
         return base_repr
 
-- 
2.43.0

