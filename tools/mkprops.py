#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
B = 'pyogp/lib/base/'
MM, UD, CI = B+'message_manager.py', B+'message/udpdispatcher.py', B+'message/circuit.py'
SE, DE, PK, UP = B+'message/udpserializer.py', B+'message/udpdeserializer.py', B+'message/data_packer.py', B+'message/data_unpacker.py'
EV, MH, EQ, CA = B+'events.py', B+'message/message_handler.py', B+'event_queue.py', B+'caps.py'
NET, STD, HE, ST = B+'network/net.py', B+'network/stdlib_client.py', B+'helpers.py', B+'settings.py'
MX, TD, TP, MSG, TM = B+'message/message_dot_xml.py', B+'message/template_dict.py', B+'message/template_parser.py', B+'message/message.py', B+'message/template.py'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})

prop('C01', 'Per-peer packet sequence numbers are unique and consecutive',
 'Every new UDP message sent to a peer carries the next packet sequence number of that peer: the first is 1, each further one is exactly one higher, in the order in which they are sent, and no two different messages to the same peer ever share a number, whoever sends them (application, queue, message handlers, acknowledgements). A gap is only left by a message that was refused locally (not allowed over UDP, or not serialisable) or whose send failed. Traffic with one peer never advances, resets or reuses the numbers of another peer.',
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of concurrent senders, receive processing and retransmission over any number of peers, with packet loss and send errors',
 'Tests number two packets of one idle circuit; they never interleave senders, peers, acks and retransmissions.',
 [CI, UD], [('Circuit.next_packet_id / prepare_packet', CI), ('CircuitManager.get_circuit keyed by (ip, port)', CI), ('UDPDispatcher.__send_message', UD)],
 ['datagrams handed to the UDP socket'])
prop('C02', 'Unacknowledged reliable messages are retransmitted within their budget',
 'A message sent reliably that the peer has not acknowledged is retransmitted to that same peer once per acknowledgement-processing round - which the running session performs after each datagram it receives - until it has been retransmitted max(1, requested retries) times. Each retransmission repeats the original sequence number and message content with the reliable and resent flags set. Messages that were not sent reliably, that could not be sent at all (refused locally), or that have been acknowledged are never retransmitted.',
 ['schedules', 'fault_sequences', 'histories'],
 'all loss, duplication, delay and partition patterns, ack timings, send errors, retry budgets and interleavings of concurrent senders',
 'No test sends a reliable message through the dispatcher and then loses it; retransmission needs a lossy peer and several rounds.',
 [UD, CI, MM], [('process_acks / __resend_all_unacked / send_retry', UD), ('Circuit.add_reliable_packet', CI), ('has_unacked gate in the pump', MM)],
 ['datagrams handed to the UDP socket, flags byte'], [('unacked_packets', 'reliable messages awaiting an ack that may still be resent', CI), ('final_retry_packets', 'reliable messages awaiting an ack, budget spent', CI)])
prop('C03', 'An acknowledgement retires exactly the message it names',
 'When an acknowledgement arrives from a peer - in a PacketAck message or appended to any other message the client accepts from it, with or without a subscriber for that message - exactly the reliable messages sent to that peer under the named sequence numbers stop being outstanding: they are not retransmitted again and nothing is kept for them. Duplicate, late, unknown or foreign acknowledgements (ids never sent, or sent to another peer) change nothing, messages not named stay outstanding, and the count of outstanding messages reported for a peer always equals the number of messages still eligible for retransmission.',
 ['schedules', 'fault_sequences', 'histories'],
 'all orders, batches, duplicates, losses and delays of acknowledgements from any set of peers relative to sends and retransmission rounds',
 'Tests add one reliable packet to a circuit and never acknowledge it.',
 [CI, UD, DE], [('Circuit.handle_packet / ack_reliable_packet', CI), ('appended ack parsing', DE), ('receive_check', UD)],
 ['retransmissions on the wire', 'per-circuit outstanding containers and counters'])
prop('C04', 'Every reliable datagram received is acknowledged to its sender, and only those',
 'For every well-formed datagram received with the reliable flag - first copy or duplicate, subscribed or not, unknown or HTTP-only message - the next acknowledgement-processing round sends an acknowledgement of its sequence number to the address it came from, however many datagrams are pending and from however many peers; the running session does this before it takes the next datagram. No acknowledgement is ever sent for a sequence number not received reliably from that peer, so unreliable datagrams are never acknowledged. Acknowledgements owed to one peer never reach another.',
 ['schedules', 'fault_sequences', 'inputs', 'histories'],
 'all mixes of reliable/unreliable, known/unknown/duplicate datagrams from many peers, batch sizes up to several hundred pending acks, and interleavings with sends that piggyback acks',
 'Tests never receive more than one datagram, nor from two peers.',
 [UD, CI, NET, DE], [('receive_check / collect_ack', UD), ('__send_acks batching', UD), ('prepare_packet piggyback', CI), ('NetUDPClient sender tracking', NET)],
 ['ack ids in datagrams handed to the UDP socket, with destination'], [('acks', 'ids owed to the peer', CI)])
prop('C05', 'Message content crosses the wire intact in both directions',
 'A peer that implements the message template decodes every UDP message the client sends to exactly the name, flags, blocks, repeat counts and field values the application set (text travels as UTF-8 with a NUL terminator), including when acknowledgements are appended to it, when it is retransmitted, when the same message object is sent again, and when a custom template is in force. Every datagram a template-conforming peer sends - any message, any field type, zero-coded or not, with or without appended acks - reaches the subscribers with exactly the values the peer put in (variable-length fields other than binary "Data" fields up to trailing NULs). Loss, duplication and reordering of datagrams never mix the content of different messages.',
 ['inputs', 'schedules', 'fault_sequences', 'configurations'],
 'all messages of the template (embedded or custom), all field values, both directions, zero-coding, appended acks, interleaved with concurrent traffic and network faults',
 'The runnable tests serialise nothing; the others check a handful of captured packets one at a time.',
 [SE, DE, PK, UP, TD, TP, MSG, TM], [('serialize / build_block', SE), ('deserialize / __decode_data / zero_code_expand', DE), ('pack_data', PK), ('unpack_data', UP)],
 ['datagrams on the simulated wire', 'messages handed to subscribers'])
prop('C06', 'Malformed datagrams neither stop the session nor deliver partial content',
 'Whatever bytes arrive on the UDP socket - truncated, corrupted, random, empty, with wrong counts or lengths, from known or unknown senders - and whatever receive errors the socket reports, the running session keeps receiving, dispatching, acknowledging and sending: later well-formed messages are delivered and queued messages are sent. A datagram that does not contain the complete body its template demands is never delivered to subscribers, and what is delivered is exactly what the datagram encodes.',
 ['inputs', 'fault_sequences', 'schedules'],
 'all byte strings as datagrams, at any point of a session with reliable traffic in both directions',
 'Tests feed one unknown packet to the deserializer and never a broken one to a running session.',
 [MM, UD, DE, UP, NET], [('pump error containment', MM), ('length checks in __decode_data', DE), ('receive_packet error handling', NET)],
 ['messages handed to subscribers', 'session progress after the datagram'])
prop('C07', 'Every message reaches each subscriber exactly once, in order',
 'Each message dispatched (from UDP, from the event queue, or outgoing when outgoing handling is enabled) calls every handler subscribed to its name exactly once per subscription, in subscription order, with the arguments given at subscription; handlers that are subscribed or unsubscribed while it is being dispatched, also by other coroutines while a handler yields, never cause another subscriber to be skipped or called twice. Handlers of other names are never called, messages from one transport are dispatched in arrival order, and removing a handler that is not subscribed raises ValueError and changes nothing. A raising handler ends the dispatch of that one message only: later messages, on either transport, are dispatched normally.',
 ['schedules', 'histories', 'programs'],
 'all sequences of subscribe, unsubscribe and dispatch, including from inside handlers and from concurrent coroutines, and handlers that raise or yield',
 'Tests fire one event with one subscriber and no re-entrancy.',
 [EV, MH, MM, EQ, UD], [('Event.notify', EV), ('MessageHandler.handle', MH), ('pump and event queue error containment', MM)],
 ['handler invocations'])
prop('C08', 'Queued messages are sent exactly once, in queue order',
 'Every message put on the outgoing queue of a running session is sent exactly once to the session host, in queue order - a message enqueued "now" goes ahead of everything still waiting - and reliably if and only if requested, no matter which coroutines or handlers enqueue, also while the queue is being drained. After the next datagram received by the session following an enqueue, nothing that was waiting is left unsent. A message that cannot be sent is skipped without holding back, duplicating or reordering the others.',
 ['schedules', 'histories', 'fault_sequences'],
 'all interleavings of enqueues (normal and now, reliable or not) from application coroutines and handlers with the draining loop, with refused messages and send errors in between',
 'The queue test enqueues into a list without a running session.',
 [MM, UD], [('enqueue_message', MM), ('_udp_dispatcher drain loop', MM), ('send_udp_message', MM)],
 ['order of datagrams handed to the UDP socket'], [('outgoing_queue', 'messages waiting', MM)])
prop('C09', 'Stopping a session stops both transports, at any moment',
 'After stop_monitors is called - right after start_monitors before the session coroutines first ran, while a poll is in flight, inside a handler, during a send, with or without an event queue, once or repeatedly - it returns without error, the UDP side processes the one datagram it is waiting for, sends the messages queued by then and nothing more, and the event queue side finishes its pending poll, acknowledges the last batch it received with a final "done" request and sends nothing more. Once the peer has sent one more datagram and the pending request has completed or failed, both coroutines have ended, and later datagrams, events and enqueued messages have no effect. Failing requests, also of the final one, do not prevent this.',
 ['schedules', 'crash_points', 'fault_sequences'],
 'all instants at which stop can fall relative to datagrams, polls, handlers and sends, with HTTP and socket faults',
 'No test starts and stops a running session.',
 [MM, EQ], [('stop_monitors / _is_running', MM), ('EventQueueClient.stop / stopped', EQ), ('final done post', EQ)],
 ['socket reads and writes, HTTP requests after stop', 'end of the session coroutines'], [('_running', 'event queue coroutine alive', EQ), ('_is_running', 'session running', MM)])
prop('C10', 'Event queue delivers every event exactly once, in order, with its content',
 'Against a server that resends a batch until it is acknowledged, every event is dispatched exactly once, in the order in which the server queued them, with its name, blocks and values, the batch id and the session host attached, whatever requests and responses are lost, fail with an HTTP error, time out, arrive late or carry an unusable body; events of one batch are all dispatched even if a handler raises, and nothing is dispatched that the server did not send. Once requests succeed again, the remaining events are delivered within a bounded number of polls. This holds for the queue of a region and of an agent domain alike.',
 ['fault_sequences', 'schedules', 'histories'],
 'all sequences of HTTP/TCP faults on polls and batches of template and non-template events, empty batches included',
 'The event queue test decodes one literal response; no poll ever fails.',
 [EQ, MM, CA, STD], [('poll loop and last_id', EQ), ('_decode_eq_result', EQ), ('_parse_result', EQ)],
 ['handler invocations against the server history'], [('last_id', 'id of the last batch received', EQ)])
prop('C11', 'Event queue polls are paced, serial and acknowledge exactly what was received',
 'There is never more than one outstanding poll, and at least the configured poll interval passes between the end of one poll and the start of the next. Each poll acknowledges the id of the batch most recently received, after all its events were dispatched, and no poll carries an acknowledgement before a first batch was received; a failed poll does not lose or change the id to acknowledge. The done flag is sent only in the single final request after stop, which is sent if and only if a batch had been received, and polls carry nothing else.',
 ['fault_sequences', 'schedules', 'configurations'],
 'all poll intervals, response delays, faults and stop times',
 'No test runs the poll loop.',
 [EQ, MM], [('REGION_EVENT_QUEUE_POLL_INTERVAL sleep', EQ), ('ack bookkeeping', EQ)],
 ['HTTP requests as the server received them, with simulated time'])
prop('C12', 'Capability calls return the server answer or raise, never anything else',
 'A capability call either returns exactly the data the server sent in answer to that very request, or raises: 404 as resource-not-found naming the url, any other error status as a resource error with url, method, status code, message and body, an unsupported content type as deserializer-not-found, an unparsable body as a deserialization error, and a broken, truncated or refused connection as some exception. The server receives the payload, method, url, content type and custom headers the caller gave, and the data of the caller is left unchanged. Concurrent calls from different coroutines never receive each other\'s answers, and a seed capability maps every requested name to the url granted for it.',
 ['inputs', 'schedules', 'fault_sequences'],
 'all LLSD payloads, statuses, headers, segmentations of the byte stream, connection faults at any byte, and interleavings of concurrent calls',
 'Tests (not runnable here) use an in-process mock that never fails midway nor interleaves.',
 [CA, STD, HE], [('GET / POST / POST_CUSTOM / _response_handler', CA), ('StdLibClient', STD), ('LLSD (de)serializers', HE)],
 ['return value or exception of the call', 'requests as the server received them'])
prop('C13', 'HTTP-only messages never cross UDP',
 'A message that the message.xml in force (embedded or custom) assigns to the llsd flavor is never put on the UDP wire, reliable or not, first send or retransmission, and is never delivered to subscribers when it arrives by UDP, although an arriving reliable one is acknowledged. Refusing it disturbs nothing else: it does not stay outstanding and other messages pass unharmed. Messages with the template flavor, or not listed, do cross UDP in both directions.',
 ['inputs', 'configurations', 'schedules'],
 'all message names, both directions, embedded and custom message.xml, mixed into running sessions',
 'Tests validate two names against the table, not the transport.',
 [MX, SE, DE, UD, MM], [('validate_udp_msg', MX), ('serialize guard', SE), ('deserialize guard', DE)],
 ['datagrams on the wire', 'messages handed to subscribers'])
prop('C14', 'Protocol behaviour does not depend on who is subscribed',
 'Which messages the application subscribes to, and whether parsing of unsubscribed messages is deferred, has no influence on the protocol: for the same well-formed incoming datagrams and application sends, the datagrams sent (acknowledgements, retransmissions, sequence numbers, content) are the same. Unsubscribed messages are neither delivered nor do they affect the delivery of subscribed ones.',
 ['configurations', 'schedules', 'histories'],
 'all subscription sets and deferred-parsing settings against the same simulated history',
 'A relation between two whole executions; tests run one.',
 [DE, UD, MH], [('deferred parsing decision', DE), ('unparsed branch of receive_check', UD)],
 ['paired executions: datagrams sent, handler invocations'])
prop('C15', 'Peers and sessions are isolated from each other',
 'What a session exchanges with one peer is unaffected by traffic with other peers on the same socket: removing all traffic with the other peers leaves the sequence numbers, acknowledgements, retransmissions, contents and deliveries concerning this peer unchanged. Two sessions in the same process share no state: each behaves exactly as it would alone, subscriptions and event queues included.',
 ['histories', 'schedules', 'fault_sequences'],
 'all interleavings of two or more peers on one dispatcher, and of two or more sessions in one process',
 'A relation between executions with and without the other peer or session; tests run one session with one peer.',
 [UD, CI, NET, MM, MH], [('circuit per (ip, port)', CI), ('per-instance state', MM), ('sender of the received datagram', NET)],
 ['paired executions: per-peer datagrams, handler invocations'])
prop('C16', 'Wait blocks for its duration and only the caller',
 'Wait(n) returns no earlier than n (whole) seconds after it was started, and within a small bounded delay after that once the scheduler runs the waiting coroutine, while other coroutines keep running meanwhile. Concurrent waits do not influence each other, and a wait that is stopped by another coroutine returns promptly without affecting the others.',
 ['schedules', 'inputs'],
 'all durations, numbers of concurrent waits, stop instants and scheduling delays of a virtual clock',
 'No test uses Wait; real time makes it slow and flaky to test.',
 [HE], [('Wait.run', HE)], ['virtual time at return, progress of other coroutines'])
prop('C17', 'A failed send is contained to its own message',
 'If a message cannot be sent - the socket reports an error, or the message lacks blocks or fields its template demands, names no template message, or its outgoing handler raises - the session survives, a send made directly by the application returns (only an exception of its own handler reaches it), no partial datagram is sent, and every other message, acknowledgement and retransmission is sent as usual. A reliable message whose first send failed in the socket is retransmitted like a lost one; a message that could not be serialised leaves nothing outstanding. A message addressed to an unusable host is not sent at all.',
 ['fault_sequences', 'inputs', 'schedules'],
 'all socket errors at any send, and all kinds of unserialisable messages, mixed into running sessions with concurrent senders',
 'No test injects a socket error or sends a bad message through a session.',
 [UD, MM, SE, NET], [('exception containment in __send_message and send_retry', UD), ('pump containment', MM)],
 ['datagrams on the wire', 'session progress'])
prop('C18', 'Logging settings never change behaviour',
 'For any combination of the logging settings (quiet, spammy, and each individual logging switch), the datagrams sent, the HTTP requests made, the messages delivered and the results returned are the same as with the default settings under the same history of events and faults.',
 ['configurations', 'histories', 'schedules'],
 'all combinations of logging switches, against the same simulated history, malformed input and failures included',
 'A relation between executions under different settings; tests check the settings values only.',
 [UD, DE, SE, EQ, CA, MH, ST], [('logging branches on the send, receive, poll and dispatch paths', UD)],
 ['paired executions: wire, HTTP and handler histories'])
prop('C19', 'Datatype, template and LLSD conversions are faithful',
 'Converting UUIDs, vectors, quaternions, packed numbers, message templates and LLSD structures to and from their external forms yields the value that was put in.',
 ['inputs'], 'all values of each datatype and all template files',
 'Tests check single values; the property is over all inputs.',
 [B+'datatypes.py', HE, TP, B+'message/llsd_builder.py'], [('datatypes', B+'datatypes.py'), ('Helpers numeric conversions', HE), ('MessageTemplateParser', TP)],
 ['return values of pure functions'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
