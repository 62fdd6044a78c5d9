#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, qtext, tests, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=tests,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

PK='packet/src/'; SL='server-lib/src/'
ALLP=[PK+x+'.rs' for x in ('packet','data','props','connect','connack','publish','puback','pubrec','pubrel','pubcomp','subscribe','suback','unsubscribe','unsuback','disconnect','auth','ping','reason','topic')]

p('C01','Serialising and parsing a packet gives the same packet back',
  'For every packet of all 15 MQTT control packet types that the packet API can build (a QoS 1/2 publish with its packet identifier, a SUBSCRIBE/UNSUBSCRIBE with a topic, a SUBACK/UNSUBACK with a reason code), serialising it and parsing the bytes yields a packet of the same type whose every observable field is equal: flags, identifiers, reason codes, strings, binary data, payload, the last will, and all properties with the order of repeated user properties. Parsing an accepted byte string and serialising the result yields the same bytes up to the order of properties with different identifiers.',
  ['inputs'],'all packets of all types, with every property, reason code, option byte and boundary size',
  'The tests round-trip one or two hand-written packets per type; a field dropped or swapped for one property, one reason code or one combination of optional fields passes them.',
  ALLP,[('to_bytes/from_bytes pair per packet type',PK+'packet.rs')],observe=['Packet::to_bytes','Packet::from_bytes','packet getters'])
p('C02','A packet occupies exactly its announced frame',
  'For every packet, the number of bytes written, the number announced by the frame length accessor, the remaining-length field in the header and the number of bytes consumed when it is parsed back all agree. Parsing an accepted packet consumes exactly the frame announced in its header, whatever follows it in the buffer, so a concatenation of packets parses into exactly those packets.',
  ['inputs'],'all accepted byte strings, followed by arbitrary bytes, and all sequences of packets',
  'The tests parse isolated packets and hardly ever look at what remains in the buffer or compare it with the accessor the TCP reader advances by.',
  ALLP,[('remaining length and size() of every part',PK+'parsable.rs'),('frame_len()',PK+'packet.rs')],observe=['Packet::frame_len','remaining bytes after Packet::from_bytes'])
p('C03','Incomplete input asks for more bytes, complete input never does',
  'Parsing any proper prefix of a valid packet reports that more bytes are needed, and nothing else. Once all bytes announced by the header are there, parsing either succeeds or reports a malformed packet; it never reports that more bytes are needed.',
  ['inputs'],'all prefixes of all valid packets; all complete frames, valid or not',
  'The tests check a few truncated packets; the guarantee is about every cut point of every packet and about every complete but malformed frame.',
  ALLP,[('InsufficientBuffer error',PK+'error.rs'),('bounds checks before reads',PK+'parsable.rs')],observe=['error value of Packet::from_bytes'])
p('C04','Parsing untrusted bytes always returns',
  'For every byte string, in one piece or scattered over several chunks, parsing returns a packet or an error: it never panics, overflows, loops forever or allocates beyond the size of the input. No bytes a peer can send make the parser abort.',
  ['inputs'],'all byte strings, all chunkings',
  'The tests feed a few malformed packets; a missing bounds check shows on one particular cut or length.',
  ALLP,[('checked reads',PK+'parsable.rs')],observe=['Packet::from_bytes'])
p('C05','Only well-formed packets are accepted',
  'A complete frame is accepted only if it is well-formed MQTT 5: known type with its mandated fixed-header flags, minimally encoded variable-length integers, well-formed UTF-8 without control characters, protocol name MQTT and version 5, consistent connect flags, QoS values and retain handling within range, known reason codes for that packet type, valid topics, and only known properties that belong to that packet (or last will), at most once except user properties, within their announced length. Every well-formed frame in the long form that this library writes is accepted, and the parsed fields are the ones the bytes carry.',
  ['inputs'],'all complete frames',
  'The tests reject a handful of malformed packets; one dropped or inverted check among the dozens per packet type stays unnoticed.',
  ALLP,[('per-type deserialize and reason tables',PK),('property table',PK+'props.rs')],observe=['Packet::from_bytes','packet getters'])
p('C06','Serialised packets have the MQTT 5 wire layout',
  'Every packet is serialised with the layout of the MQTT 5 standard: type and flags in the first byte, minimal remaining length, fields in the order and width the standard gives, big-endian integers, length-prefixed strings and binary data, properties preceded by their total length, connect flags that announce exactly the fields that follow. An independent MQTT 5 decoder reads the same field values from the bytes as were put in.',
  ['inputs'],'all packets that can be built',
  'Round trips cannot see an error made symmetrically in both directions; the few byte-level tests pin single examples.',
  ALLP,[('serialize of every part',PK)],observe=['bytes of Packet::to_bytes'])
p('C07','Parsing does not depend on how the bytes are chunked',
  'For every byte string, the result of parsing it and the number of bytes consumed are the same whether it lies in one contiguous buffer or is scattered over any sequence of chunks.',
  ['inputs'],'all byte strings and all ways to split them into chunks',
  'The tests use contiguous buffers almost exclusively.',
  [PK+'data.rs',PK+'publish.rs',PK+'packet.rs'],[('generic Buf reads',PK+'data.rs')],observe=['Packet::from_bytes over chained buffers'])
p('C08','Property sets keep the rules of the property table',
  'Adding a property to a packet or last will succeeds exactly if that property may appear there and the value has its type; otherwise it is refused and the packet is unchanged. A single-valued property holds the value of the last successful addition, user properties accumulate in order, and what the accessors return, what is serialised and what the frame length counts always agree.',
  ['histories','inputs'],'all sequences of property additions, accepted and refused, on all packet types',
  'The tests add a few properties once; the size accounting and ownership rules are only exercised along other histories.',
  [PK+'props.rs'],[('checked_insert and size accounting',PK+'props.rs')],state=[('props','multiset of properties',PK+'props.rs')],observe=['add_prop','get_prop','props_iter','frame_len','to_bytes'])
p('C09','No sequence of builder calls produces a contradictory packet',
  'After any sequence of builder calls, successful or refused (flags, QoS, identifiers, will, user name, password, topics, payload), the packet reflects exactly the successful calls, a refused call changes nothing, and the serialised packet announces exactly the fields it carries and can be parsed back to the same fields. Refusals are exactly those that the data model demands: control characters or over-long strings, over-long binary data, will options without a will, a packet identifier at QoS 0, invalid or wildcard topics where not allowed, contradictory subscription options.',
  ['histories','inputs'],'all sequences of builder calls on all packet types',
  'The tests build each packet along one or two straight paths.',
  [PK+'connect.rs',PK+'publish.rs',PK+'subscribe.rs',PK+'unsubscribe.rs',PK+'topic.rs',PK+'data.rs'],[('setters',PK+'connect.rs'),('setters',PK+'publish.rs')],observe=['builder results','getters','to_bytes'])
p('C10','Topic filters and names are validated as MQTT demands',
  'A topic filter is accepted, by the builders and by the parser alike, exactly if every # is the last character and alone in its level, every + is alone in its level, and the text is a valid MQTT string of at most 65535 bytes. A publish topic is accepted exactly if it is such a string without any wildcard character.',
  ['inputs'],'all strings as filters and as topic names',
  'The tests list some good and bad topics.',
  [PK+'topic.rs',PK+'publish.rs',PK+'subscribe.rs'],[('is_valid_topic',PK+'topic.rs')],observe=['Subscribe::add_topic','Unsubscribe::add_topic','Publish::new','Packet::from_bytes'])

p('T01','A topic reaches exactly the matching subscriptions',
  'Looking up a topic name in the topics table returns exactly the clients that hold at least one subscription whose filter matches it under the MQTT rules: levels equal, + matches exactly one level (also an empty one), a trailing # matches the parent level and any number of further levels, a leading / makes an empty first level, and filters starting with a wildcard do not match topics starting with $.',
  ['inputs','histories'],'all topic names, all sets of filters and clients',
  'server-lib has no tests; matching is a tree walk whose corner cases (parent of #, empty levels, several wildcards, $) only show for particular combinations.',
  [SL+'topics.rs'],[('collect_subs',SL+'topics.rs'),('visit',SL+'topics.rs')],state=[('root_block','tree of topic levels with subscribers',SL+'topics.rs')],observe=['TopicsTable::get_all_subscribed'],hook='re-export of the table behind cfg(apiformes_verif)')
p('T02','The topics table follows every subscribe and unsubscribe',
  'After any sequence of subscribe, unsubscribe and unsubscribe-all calls, the table contains exactly the subscriptions that were made and not removed since, each with the options of its latest subscribe call. Removing one subscription affects neither other filters of the same client nor other clients, removing an absent one changes nothing, and unsubscribe-all removes all of the subscriptions of that client and no others.',
  ['histories'],'all sequences of operations of any number of clients',
  'No tests exist; stale entries only show after particular add and remove sequences.',
  [SL+'topics.rs'],[('subscribe/unsubscribe/unsubscribe_all',SL+'topics.rs')],state=[('reverse_index','filters per client',SL+'topics.rs')],observe=['TopicsTable::get_all_subscribed'],hook='re-export of the table behind cfg(apiformes_verif)')
p('T03','Overlapping subscriptions are merged fairly',
  'When several subscriptions of one client match a topic, the lookup returns that client once, with the highest QoS among them, and marked no-local only if every one of them is. The answer does not depend on the order in which the subscriptions were made nor on where they sit in the tree.',
  ['inputs','histories'],'all sets of overlapping filters, options and orders',
  'No tests exist; the merge depends on traversal order and on the combination of options.',
  [SL+'topics.rs'],[('collect_hash_wildcard and collect_subscribers',SL+'topics.rs')],observe=['TopicsTable::get_all_subscribed'],hook='re-export of the table behind cfg(apiformes_verif)')
p('T04','Concurrent use of the topics table loses nothing',
  'When subscribe, unsubscribe, unsubscribe-all and lookup calls of different tasks interleave in any way, every call completes, a subscription that exists throughout a lookup is found, one that exists at no time during it is not (one that several calls remove at the same time may be found until all of them have returned), and after all calls have returned the table holds what some sequential order of the calls of each client yields.',
  ['schedules'],'all interleavings of concurrent calls at every lock acquisition',
  'No tests exist, and a test run samples one schedule; lost updates need two tasks to create the same level at the same time.',
  [SL+'topics.rs'],[('per-level RwLock, create_if_not_existing',SL+'topics.rs')],state=[('Block.inner','children of a level under its lock',SL+'topics.rs')],observe=['TopicsTable::get_all_subscribed'],hook='re-export of the table behind cfg(apiformes_verif)')

BR=[SL+'dispatcher.rs',SL+'topics.rs',SL+'clients/mod.rs',SL+'clients/clientworker.rs',SL+'clients/client.rs']
p('B01','Every message reaches every matching client exactly once',
  'Every accepted QoS 0 message is delivered exactly once to each connected client with at least one matching granted subscription at the time the broker processes it (however many of its subscriptions match), and to no other client. The only exceptions are the sender under no-local, plain-text clients under strict permeability, and messages larger than what the receiver accepts.',
  ['histories','schedules'],'all histories of connects, subscriptions, publishes and disconnects of any number of clients, all schedules',
  'server-lib has no tests at all.',
  BR,[('process_publish',SL+'dispatcher.rs')],state=[('clients','table of connected clients',SL+'lib.rs'),('incoming','queue of received packets',SL+'dispatcher.rs')],observe=['MQTT clients on TCP'])
p('B02','Forwarded messages carry what was published',
  'A delivered message has the topic and the payload of the published one, byte for byte and of any size that fits, and its payload format indicator, response topic, correlation data, content type and user properties in order; it is sent as QoS 0 without duplicate and retain flags and with no other property.',
  ['inputs'],'all messages and combinations of properties',
  'server-lib has no tests; a property dropped or mangled for one type of value is invisible elsewhere.',
  [SL+'dispatcher.rs'],[('response built in process_publish',SL+'dispatcher.rs')],observe=['MQTT clients on TCP'])
p('B03','Messages are delivered in order',
  'Each client receives the messages of one publisher in the order they were sent, and two clients that both receive two given messages receive them in the same order, whatever the publishers and the load. A SUBACK takes its place in that order: every message processed after the grant is delivered after the SUBACK and none is missing.',
  ['schedules','histories'],'all interleavings of any number of publishers and subscribers',
  'No tests; ordering errors need concurrency and load.',
  BR,[('single dispatcher and one queue per client',SL+'dispatcher.rs')],observe=['MQTT clients on TCP'])
p('B04','No-local is respected',
  'A client never receives its own message if all of its matching subscriptions are no-local, and does receive it if at least one of them is not; no-local never suppresses the messages of other clients. The latest subscribe for a filter decides its option.',
  ['histories','inputs'],'all histories of subscriptions with and without the option, overlapping filters, all senders',
  'No tests; depends on the combination of overlapping filters and re-subscriptions.',
  [SL+'dispatcher.rs',SL+'topics.rs'],[('NO_LOCAL test',SL+'dispatcher.rs')],observe=['MQTT clients on TCP'])
p('B05','Strict permeability keeps encrypted messages off plain connections',
  'Under strict permeability a message published over an encrypted connection is delivered to all matching encrypted clients and to no unencrypted client; a message published over an unencrypted connection, and every message under permissive permeability, is delivered to all matching clients of both kinds.',
  ['configurations','histories'],'both policies, all mixes of encrypted and plain publishers and subscribers, including identifiers that move between the two kinds',
  'No tests; leaking needs a mixed population under the strict policy.',
  [SL+'dispatcher.rs',SL+'config.rs'],[('strict_encryption',SL+'dispatcher.rs')],observe=['MQTT clients on TCP and on Noise'])
p('B06','Nothing happens before a successful CONNECT',
  'A connection whose first packet is not an acceptable CONNECT is closed without any success CONNACK, none of its packets is acted upon (no subscription, no delivery, no entry in the list of clients), and packets sent behind the CONNECT are processed only after the connection is registered. A second CONNECT on a connection ends it.',
  ['histories','inputs'],'all first packets of all types and all byte strings, on both transports',
  'No tests.',
  [SL+'clients/clientworker.rs',SL+'clients/mqttclient.rs',SL+'clients/noiseclient.rs'],[('connect()',SL+'clients/clientworker.rs')],observe=['MQTT clients','MqttServer::clients'])
p('B07','CONNACK tells the truth about the session',
  'A CONNECT with clean start and without user name, password, will or authentication is answered by a success CONNACK without session-present flag that echoes session expiry and receive maximum, states maximum QoS 0, no topic aliases, no wildcard, identifier or shared subscription support and the configured keep-alive, and assigns a fresh unique client identifier exactly if the client sent none. A CONNECT that asks for anything unsupported is answered by an error CONNACK (implementation specific error) and the connection is closed and not registered.',
  ['inputs'],'all CONNECT packets: every combination of flags and properties',
  'No tests; one property mishandled only shows for CONNECTs that carry it.',
  [SL+'clients/clientworker.rs',SL+'cfg.rs'],[('process_connect',SL+'clients/clientworker.rs')],observe=['CONNACK on the wire','MqttServer::clients'])
p('B08','SUBACK tells the truth about each filter',
  'Each SUBSCRIBE is answered by exactly one SUBACK with its packet identifier and one reason code per filter in order: granted QoS 0 for a filter requested with QoS 0 and retain handling do-not-send, and implementation specific error otherwise. A filter is effective from the SUBACK on exactly if it was granted; a refused one neither creates nor changes a subscription.',
  ['inputs','histories'],'all SUBSCRIBE packets with any number of filters and all option bytes',
  'No tests.',
  [SL+'dispatcher.rs'],[('process_subscribe',SL+'dispatcher.rs')],observe=['SUBACK on the wire','deliveries'])
p('B09','Unsupported requests are refused and acted upon by nobody',
  'A registered client that sends a packet the broker does not implement (any type other than PUBLISH and SUBSCRIBE, a publish with QoS 1 or 2, DUP, RETAIN, message expiry, topic alias or subscription identifier, a subscribe with a subscription identifier) receives a DISCONNECT with implementation specific error and its connection is closed; the request has no other effect. Other clients are not affected.',
  ['inputs','histories'],'all packets of all types from registered clients',
  'No tests.',
  [SL+'dispatcher.rs'],[('unimplemented()',SL+'dispatcher.rs')],observe=['MQTT clients on TCP'])
p('B10','No client can stop the broker for the others',
  'Whatever bytes or packets a client sends, and however it behaves (malformed packets, abrupt disconnects, leaving while its requests are queued, not reading its messages, half-open connections), the broker keeps accepting connections, subscriptions and messages of the other clients and delivers to them. A malformed packet ends the connection it came from, and only that one.',
  ['fault_sequences','schedules','inputs'],'all byte streams, all points at which a client may vanish, any number of misbehaving clients',
  'No tests; needs a hostile peer and a particular moment of leaving.',
  BR,[('one task per client, unbounded outgoing queues',SL+'clients/clientworker.rs')],observe=['MQTT clients on TCP','MqttServer::clients'])
p('B11','Ended connections leave nothing behind',
  'When a connection ends for whatever reason (closed or reset by the peer, half-closed, protocol error, refused request), the broker closes it, and its client identifier disappears from the list of clients and its subscriptions from the topics table within bounded time; a registered client with a live connection stays in the list.',
  ['fault_sequences','histories','schedules'],'all ways and moments in which connections end, all interleavings with its queued packets',
  'No tests.',
  [SL+'clients/mod.rs',SL+'clients/mqttclient.rs',SL+'clients/clientworker.rs'],[('process_retiring_worker',SL+'clients/mod.rs')],observe=['MqttServer::clients','MqttServer::get_topics'])
p('B12','A reconnecting client takes its identifier over cleanly',
  'When a client connects with an identifier that another connection holds, the broker closes the old connection, and from then on the new connection alone is the client: its subscriptions and deliveries work, the end of the old connection does not unregister it, and requests still queued from the old connection have no effect on it.',
  ['histories','schedules'],'all interleavings of takeovers with requests of the old and the new connection, repeated takeovers, both transports',
  'No tests; needs two connections with one identifier and a particular order of their ends.',
  [SL+'clients/mod.rs',SL+'dispatcher.rs'],[('process_new_worker',SL+'clients/mod.rs')],observe=['MQTT clients on TCP','MqttServer::clients'])
p('B13','A clean start begins without subscriptions',
  'A newly accepted connection, which is always a clean start, has no subscriptions, whatever the previous holder of its client identifier had subscribed to and however its connection ended, and receives no message before its first granted subscription.',
  ['histories','schedules'],'all histories of connections with the same identifier',
  'No tests.',
  [SL+'clients/mod.rs',SL+'topics.rs',SL+'dispatcher.rs'],[('unsubscribe_all on retirement and takeover',SL+'clients/mod.rs')],observe=['deliveries','MqttServer::get_topics'])
p('B14','Packets above the maximum size end the connection',
  'A client that sends a packet larger than the configured maximum packet size is disconnected and the packet is not acted upon; packets of exactly that size and below are processed. This holds on plain and on encrypted connections, in the CONNECT as well as later, and however the bytes are segmented.',
  ['inputs','configurations'],'all packet sizes around all configured maxima, both transports',
  'No tests.',
  [SL+'clients/mqttclient.rs',SL+'clients/noiseclient.rs'],[('bounded read buffer',SL+'clients/mqttclient.rs')],observe=['MQTT clients on TCP and on Noise'])
p('B15','No client is sent a packet above the size it accepts',
  'The broker never sends a client a packet larger than the smaller of the configured maximum packet size and the maximum packet size in its CONNECT; a message that is too large for one receiver is dropped for that receiver alone, with its connection intact, and is delivered to all others. Messages of exactly that size are delivered.',
  ['inputs','configurations'],'all message sizes around all announced maxima, mixed receivers, both transports',
  'No tests.',
  [SL+'clients/client.rs',SL+'dispatcher.rs'],[('Client::send',SL+'clients/client.rs')],observe=['MQTT clients on TCP and on Noise'])
p('B16','The broker does not depend on TCP segmentation',
  'The effect of a sequence of packets is the same however its bytes are cut into TCP segments and however many packets arrive in one segment, including a CONNECT followed immediately by further packets, and reads interleaved with deliveries to the same client. No packet is lost, duplicated or altered.',
  ['inputs','schedules'],'all segmentations of all packet sequences',
  'No tests.',
  [SL+'clients/mqttclient.rs',SL+'clients/clientworker.rs'],[('recv loop',SL+'clients/mqttclient.rs')],observe=['MQTT clients on TCP'])
p('B17','Shutdown ends everything',
  'Shutting the server down returns within bounded time in every state (no clients, idle clients, clients under load, connections still in their handshake, both listeners), and when it has returned no listener accepts connections and every connection of a registered client is closed.',
  ['schedules','histories'],'all states of the server at the time of the call',
  'No tests; a missed wake-up depends on which task waits where.',
  [SL+'lib.rs',SL+'clients/mod.rs',SL+'clients/clientworker.rs',SL+'dispatcher.rs'],[('shutdown notification',SL+'lib.rs')],observe=['MqttServer::shutdown','TCP connections'])
p('B18','Silent connections are dropped',
  'A connection that has not completed its handshake in time (the configured keep-alive for the CONNECT, three times that for the Noise handshake) is closed by the broker, however few bytes it trickles; a connection that completes it before that is not. A registered client is never dropped for being idle.',
  ['histories','configurations'],'all ways to stall a handshake on both transports',
  'No tests.',
  [SL+'clients/mqttclient.rs',SL+'clients/noiseclient.rs'],[('sleep in _connect_client',SL+'clients/mqttclient.rs')],observe=['TCP connections'])
p('B19','Back-pressure loses nothing for any queue size',
  'The server starts and works with every configured dispatcher queue size, down to a single element and including values smaller than one element. However much the clients send at once, no request of a connected client is lost, duplicated or reordered and no client starves.',
  ['configurations','schedules'],'all queue sizes under load',
  'No tests.',
  [SL+'lib.rs',SL+'clients/clientworker.rs'],[('bounded incoming queue',SL+'lib.rs')],observe=['MQTT clients on TCP'])
p('B20','Servers start completely or not at all, and share nothing',
  'Starting a server succeeds exactly if every address it is configured with can be bound, whether these are both listeners, one of them or none; a start that fails leaves nothing behind: no listener accepts connections at any of its addresses and they can be used again. Servers in one process are independent: clients, identifiers, subscriptions, messages and the shutdown of one do not affect the others. A server started at the addresses of one that was shut down starts without clients and subscriptions.',
  ['histories','configurations'],'all sequences of starts, failing starts, shutdowns and clients over all sets of addresses',
  'No tests; every test starts one server at free addresses.',
  [SL+'lib.rs',SL+'clients/mod.rs'],[('ClientManager::start',SL+'clients/mod.rs')],observe=['MqttServer::new','MqttServer::clients','TCP connections'])
p('N01','Only authentic Noise messages are processed',
  'On the encrypted listener a client is served only after a complete Noise XK handshake with the configured server key; plain MQTT, a handshake for another server key, and any handshake or transport message that is modified, replayed, reordered, truncated or dropped ends the connection, with no effect of the affected message nor of anything after it. All packets the broker sends there are encrypted.',
  ['fault_sequences','inputs'],'all positions and kinds of tampering in all sessions',
  'No tests.',
  [SL+'clients/noiseclient.rs'],[('handshake and read_message',SL+'clients/noiseclient.rs')],observe=['raw TCP on the encrypted listener'])
p('N02','An encrypted connection carries exactly its packets',
  'Each Noise transport message carries exactly one packet in either direction: a message whose plaintext is a truncated packet, has bytes after its packet, or is empty ends the connection without effect, and every well-formed packet has the same effect as on a plain connection, however the bytes are segmented.',
  ['inputs','histories'],'all plaintexts, all segmentations, all packet sequences',
  'No tests.',
  [SL+'clients/noiseclient.rs'],[('NoiseClient::recv',SL+'clients/noiseclient.rs')],observe=['Noise clients on TCP'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
