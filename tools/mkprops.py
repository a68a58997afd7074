#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script only to keep the JSON lines valid).
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe=(),state=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","No peer input can corrupt memory, crash or hang the server",
 "Whatever bytes a network peer sends, in whatever segmentation and at whatever point of the protocol, the server never reads or writes outside its own objects, never uses freed memory, never aborts and never loops forever. The worst outcome for malformed input is that this one connection is closed.",
 ["inputs","histories"],"all byte strings a peer can send as any MQTT packet, before and after login, for every protocol version",
 "Unit tests feed well-formed packets and a few malformed ones; memory errors hide at length/offset combinations nobody sampled.",
 ["mqttpacket.cpp","client.cpp","mqtt5properties.cpp","packetdatatypes.cpp","cirbuf.cpp"],
 [("bounds check before each read of a packet","mqttpacket.cpp: readByte/readTwoBytesToUInt16/readBytes"),("per-connection exception containment","threadloop.cpp: do_thread_work")],
 ["the connection is closed or an answer is written; process stays alive"])
p("C02","Connection buffers deliver exactly the bytes put in, in order",
 "A connection's byte buffers behave as an unbounded-order FIFO: what comes out is what went in, in the same order, across wrap-around, growth and shrinking. They never report more free or used space than they have.",
 ["inputs","histories"],"every reachable buffer position (head/tail), capacity step, content and operation sequence",
 "Tests exercise a few fixed sizes and positions; wrap-around bugs need a particular head/tail/size combination.",
 ["cirbuf.cpp","cirbuf.h"],[("circular buffer arithmetic","cirbuf.cpp")],["bytes read back"],[("head, tail, size","positions in the power-of-two ring","cirbuf.h")])
p("C03","Packets are recognised independently of how the stream is segmented",
 "For a well-formed stream, the sequence of MQTT packets the server acts upon depends only on the bytes, not on how they are split over reads. A packet is acted on once and only when it is complete, and a length field that is malformed or exceeds the configured maximum closes the connection.",
 ["inputs","schedules"],"all byte streams up to the bound and all splits of them over reads",
 "Tests send whole packets over loopback; partial reads at each offset are never sampled.",
 ["mqttpacket.cpp","client.cpp"],[("packet extraction loop","mqttpacket.cpp: bufferToMqttPackets"),("read loop","client.cpp: readFdIntoBuffer")],["packets handled and bytes left"])
p("C04","Variable-length integers encode and decode exactly",
 "Every representable length or identifier is encoded in the shortest form and decodes back to itself. Out-of-range values and encodings longer than four bytes or cut off are refused rather than misread.",
 ["inputs"],"all 32-bit values to encode, all byte strings to decode",
 "Boundary values are sampled by tests, but not each value, nor every malformed encoding.",
 ["variablebyteint.cpp","mqttpacket.cpp","mqtt5properties.cpp"],[("7-bit groups with continuation flag","variablebyteint.cpp")],["encoded bytes, decoded value"])
p("C05","Text fields are accepted exactly when they are valid MQTT UTF-8",
 "A string received in a packet is accepted as text if and only if it is well-formed UTF-8 without control characters, surrogates or non-characters, and in a topic name without wildcards. The accelerated and the portable check agree on every string.",
 ["inputs"],"all byte strings up to the bound, at every alignment relative to the 16-byte blocks",
 "Test vectors sample specific code points; combinations inside one 16-byte block are not covered.",
 ["threadlocalutils.cpp","utils.h","utils.cpp","mqttpacket.cpp"],[("block-wise validator","threadlocalutils.cpp: SimdUtils::isValidUtf8"),("portable validator","utils.h: isValidUtf8Generic")],["connection closed or packet accepted"])
p("C06","A message reaches exactly the subscribers whose filter matches",
 "A published message is delivered to a subscriber if and only if one of its active topic filters matches the topic under the MQTT rules for levels, '+', '#' and topics starting with '$', which only the server itself can publish to. This holds for any set of subscriptions and any order of creating and removing them.",
 ["inputs","histories"],"all topics, filters and subscribe/unsubscribe histories within the bound",
 "Tests check listed filter/topic pairs; the matching tree is shared by all subscriptions and interaction is unsampled.",
 ["subscriptionstore.cpp","utils.cpp","threadlocalutils.cpp","mqttpacket.cpp"],[("subscription tree walk","subscriptionstore.cpp: publishRecursively"),("topic split","threadlocalutils.cpp: splitTopic")],["PUBLISH written to the subscriber's socket"])
p("C07","Topic names and filters are admitted exactly when well-formed",
 "A subscription is admitted only for a filter in which '#' is the last level alone and '+' fills a whole level; a publish is admitted only for a non-empty topic without wildcards. Shared subscription filters additionally need a non-empty share name without wildcards and a non-empty filter.",
 ["inputs"],"all filter and topic strings up to the bound",
 "Tests check listed strings only.",
 ["utils.cpp","mqttpacket.cpp"],[("filter validity","utils.cpp: isValidSubscribePath"),("share parsing","utils.cpp: parseSubscriptionShare")],["SUBACK codes or connection close"])
p("C08","Subscribe and unsubscribe answers and effects follow the request",
 "Each SUBSCRIBE is answered once with its packet identifier and one result per filter in order, and each UNSUBSCRIBE likewise. After the answer the client's subscriptions are exactly those requested, with a repeated filter replacing the earlier options.",
 ["inputs","histories"],"all subscribe/unsubscribe packets and sequences within the bound",
 "Tests use single, distinct filters.",
 ["mqttpacket.cpp","subscriptionstore.cpp","session.cpp"],[("subscribe handling","mqttpacket.cpp: handleSubscribe"),("unsubscribe handling","mqttpacket.cpp: handleUnsubscribe")],["SUBACK/UNSUBACK bytes; later deliveries"])
p("C09","Subscription options govern every delivery",
 "A delivery's QoS is the lower of the publish and subscription QoS, its retain flag follows retain-as-published, no-local suppresses a client's own messages, and the subscription identifier of the matching subscription is included. The payload, topic and end-to-end properties are delivered unchanged.",
 ["inputs","configurations"],"all combinations of QoS, options, protocol versions and property contents within the bound",
 "The option matrix is only partially sampled.",
 ["subscriptionstore.cpp","publishcopyfactory.cpp","session.cpp","client.cpp","mqttpacket.cpp"],[("copy per receiver","publishcopyfactory.cpp"),("delivery","session.cpp: writePacket")],["PUBLISH bytes"])
p("C10","A shared subscription delivers each message to exactly one live member",
 "For each share group whose filter matches, exactly one member that still has a session receives the message, and none if there are no live members. Members removed or expired are never chosen, and non-members are unaffected.",
 ["inputs","histories","configurations"],"all join/leave/expire/publish histories within the bound and all targeting modes",
 "Tests use fixed groups; index reuse after removal is unsampled.",
 ["sharedsubscribers.cpp","subscriptionstore.cpp"],[("member selection","sharedsubscribers.cpp: getNext"),("re-index","sharedsubscribers.cpp: purgeAndReIndex")],["which member receives"])
p("C11","A new subscription gets the latest retained message of each matching topic",
 "After any sequence of retained publishes the retained message of a topic is the last one set, and none if the last one had an empty payload. A new subscription receives exactly the unexpired retained messages whose topics match its filter, flagged as retained, subject to its retain-handling option.",
 ["inputs","histories"],"all sequences of retained publishes, topics and filters within the bound",
 "Tests check fixed sequences.",
 ["subscriptionstore.cpp","retainedmessage.cpp","mqttpacket.cpp"],[("retained tree","subscriptionstore.cpp: setRetainedMessage/giveClientRetainedMessages")],["PUBLISH after SUBSCRIBE"])
p("C12","Expired messages are never delivered and lifetimes only count down",
 "A message with an expiry interval is not delivered once that interval has passed since the server received it. When delivered earlier, the interval it carries is the original minus the waiting time.",
 ["inputs","schedules"],"all expiry values, waiting times and protocol paths (direct, queued, retained) within the bound",
 "Tests use one or two real-time waits.",
 ["types.cpp","publishcopyfactory.cpp","qospacketqueue.cpp","session.cpp","retainedmessage.cpp"],[("expiry","types.cpp: PublishExpireInfo")],["PUBLISH delivered or not, its expiry property"])
p("C13","A packet identifier in use is never handed out again",
 "Each QoS>0 message sent to a client carries a non-zero packet identifier that no other unfinished exchange of that session uses. An identifier becomes available again once its exchange finishes, and choosing one always terminates.",
 ["histories","inputs"],"all sets of identifiers in use, all positions of the allocator",
 "65535 identifiers with arbitrary occupied sets cannot be sampled.",
 ["usedids.cpp","session.cpp"],[("identifier allocation","session.cpp: QoSData::getNextPacketId"),("used identifier set","usedids.cpp")],["packet identifiers on the wire"])
p("C14","An unacknowledged message is kept and resent until its own acknowledgement",
 "A QoS>0 message accepted for a persistent session stays queued until the acknowledgement carrying its identifier arrives; other acknowledgements leave it alone. On reconnect such messages are resent in original order with the same identifier and the duplicate flag, as many as the new receive maximum allows.",
 ["histories","fault_sequences"],"all interleavings of deliveries, acknowledgements (any identifier), disconnects and reconnects within the bound",
 "Tests check one reconnect with fixed acknowledgements.",
 ["session.cpp","qospacketqueue.cpp","mqttpacket.cpp"],[("pending queue","qospacketqueue.cpp"),("resend","session.cpp: sendAllPendingQosData")],["PUBLISH bytes after reconnect"])
p("C15","A QoS 2 message is published onward exactly once",
 "However often a client repeats a QoS 2 publish with the same identifier before releasing it, subscribers get it once; after release the identifier denotes a new message. This also holds over reconnects of the same session.",
 ["histories","fault_sequences"],"all sequences of PUBLISH/PUBREL with arbitrary identifiers and flags, with reconnects, within the bound",
 "Tests check one duplicate.",
 ["mqttpacket.cpp","session.cpp"],[("incoming QoS 2 set","session.cpp: addIncomingQoS2MessageId")],["deliveries to a subscriber, PUBREC/PUBCOMP answers"])
p("C16","The outgoing QoS 2 handshake always moves forward",
 "After the receiver confirms a QoS 2 message it is never sent again and its release is repeated on reconnect until the receiver completes it. Unknown identifiers are answered without changing other exchanges.",
 ["histories","fault_sequences"],"all sequences of PUBREC/PUBCOMP with arbitrary identifiers and reason codes, with reconnects, within the bound",
 "Tests check the regular order only.",
 ["session.cpp","mqttpacket.cpp"],[("outgoing QoS 2 set","session.cpp: addOutgoingQoS2MessageId")],["PUBREL and PUBLISH bytes"])
p("C17","No more unacknowledged messages than the client allows",
 "The number of QoS>0 messages sent and not yet finished never exceeds the receive maximum the client announced, and every finished exchange frees one place. A message for which there is no place is dropped for that client alone, and later messages are sent again as soon as there is a place.",
 ["histories","inputs"],"all receive-maximum values and sequences of publishes and acknowledgements within the bound",
 "Tests use one limit and one order of acknowledgements.",
 ["session.cpp","session.h"],[("quota","session.cpp: writePacket / increaseFlowControlQuota")],["unacknowledged PUBLISHes on the wire"])
p("C18","The pending-message store is an exact ordered map with exact size accounting",
 "The store of pending messages returns for every identifier exactly the message filed under it, in filing order, and its reported count and byte total equal the sum over its contents. The configured message and byte limits are enforced for any sequence of operations.",
 ["histories","inputs"],"all sequences of insertions, acknowledgements and expiry sweeps within the bound",
 "Linked-list corruption needs particular removal orders.",
 ["qospacketqueue.cpp","qospacketqueue.h"],[("linked pending queue","qospacketqueue.cpp")],["queue contents and counters"])
p("C19","No packet larger than the client's announced maximum is sent",
 "The server never writes a packet larger than the maximum packet size a client announced. A message that does not fit is dropped for that client only, without blocking later messages.",
 ["inputs"],"all maximum packet sizes and message sizes within the bound",
 "Tests use one size.",
 ["client.cpp","mqttpacket.cpp","session.cpp"],[("size check","client.cpp: writeMqttPacket")],["bytes written"])
p("C20","Topic aliases always stand for the topic they were set to",
 "A publish using an alias is treated as a publish to the topic last assigned to that alias on the same connection; unknown, zero or out-of-range aliases close the connection. Aliases the server uses towards a client stay within the client's limit and are introduced with the full topic first.",
 ["inputs","histories"],"all sequences of aliased publishes and limits within the bound",
 "Tests use one alias.",
 ["mqttpacket.cpp","client.cpp"],[("alias maps","client.cpp: setTopicAlias/getTopicAlias")],["topics delivered; bytes written"])
p("C21","Nothing is done for a client that has not logged in",
 "Until a connection has completed a successful login, no packet it sends causes a publish, a subscription or any change visible to others; packets other than a login attempt are dropped or close the connection. A second login attempt on the same connection is refused.",
 ["inputs","histories"],"all first packets and packet sequences up to the bound, all login outcomes",
 "Tests check a few packet types before login.",
 ["mqttpacket.cpp","client.cpp","threaddata.cpp"],[("authenticated gate","mqttpacket.cpp: handle")],["effects on other clients; connection closed"])
p("C22","Login is granted only on valid credentials or an allowed anonymous login",
 "A user in the password file is admitted by it only with the matching password, even when anonymous logins are allowed; with anonymous logins disabled an unknown or absent user is refused. Where a plugin is configured it decides on those the file does not admit, its refusal or failure never results in admission, and the answer code reflects the refusal.",
 ["inputs","configurations"],"all users, passwords, file contents, plugin answers and configuration combinations within the bound",
 "The configuration matrix is sampled.",
 ["plugin.cpp","mqttpacket.cpp","threaddata.cpp"],[("login decision","plugin.cpp: loginCheck"),("anonymous handling","mqttpacket.cpp: handleConnect")],["CONNACK code, later packets accepted or not"])
p("C23","The access file decides exactly as documented",
 "For any access file content, user, client identifier and topic, read and write are granted exactly when a matching rule grants it and no matching rule denies it; user sections replace the general section, and patterns apply to the client's own user name and identifier.",
 ["inputs","configurations"],"all rule sets up to the bound, all topics, users, client identifiers",
 "Tests check one example file.",
 ["acltree.cpp","plugin.cpp"],[("rule tree","acltree.cpp: findPermission")],["grant or denial"])
p("C24","A denied publish, subscription, delivery or will has no effect",
 "When the access check denies, a message is not delivered nor retained, a subscription is not made, a will is not registered, and a receiver without read access gets nothing. The client is answered with a refusal where the protocol has one, and a check that fails with an error counts as denial.",
 ["inputs","configurations"],"all check outcomes for each access type, all QoS and protocol versions",
 "Tests check some outcomes on some paths.",
 ["mqttpacket.cpp","session.cpp","plugin.cpp","subscriptionstore.cpp"],[("write check","mqttpacket.cpp: handlePublish"),("read check","session.cpp: writePacket"),("subscribe check","mqttpacket.cpp: handleSubscribe")],["deliveries, reason codes"])
p("C25","One connection per client identifier, with the right session",
 "When a client connects with an identifier already connected, the older connection ends and its session moves to the new one. A clean start discards earlier subscriptions and pending messages, otherwise they are resumed, and the session-present flag tells which happened.",
 ["histories","inputs"],"all sequences of connects (clean or not, with expiry or not) and disconnects with the same or different identifiers within the bound",
 "Tests check a few orders.",
 ["subscriptionstore.cpp","session.cpp","mqttpacket.cpp"],[("session registration","subscriptionstore.cpp: registerClientAndKickExistingOne")],["CONNACK flag, old connection closed, deliveries"])
p("C26","A session lives exactly as long as its expiry interval allows",
 "A disconnected session is not removed before its own expiry interval, counted from its latest disconnect, has passed (counted in whole seconds), and is removed by the first cleanup after that. A connected session is never removed.",
 ["histories","schedules"],"all sequences of connect, disconnect, expiry update and cleanup at arbitrary times within the bound",
 "Real-time tests wait a few seconds for one disconnect.",
 ["subscriptionstore.cpp","session.cpp","threaddata.cpp"],[("removal queue","subscriptionstore.cpp: queueSessionRemoval/removeExpiredSessionsClients")],["session present after reconnect"])
p("C27","A will is published exactly when the connection is lost",
 "A client's will is published once if its connection ends without a proper disconnect, after the will delay or at the end of the session, whichever is first (times count in whole seconds). It is not published after a proper disconnect, nor when the client returns before the delay has passed.",
 ["histories","schedules"],"all orders of disconnect kinds, reconnects, delays and sweeps within the bound",
 "Tests check fixed delays with real waits.",
 ["client.cpp","session.cpp","subscriptionstore.cpp","mqttpacket.cpp"],[("will queue","subscriptionstore.cpp: queueOrSendWillMessage/sendQueuedWillMessages")],["will PUBLISH deliveries"])
p("C28","Silent clients are dropped after 1.5 keep-alive periods, active ones never",
 "A client from which nothing was received for one and a half times its keep-alive is disconnected within the few seconds that separate two checks; one that sent something within its keep-alive is not, whatever the keep-alives of others. The keep-alive is the client's own, or for MQTT 5 the greater one that the CONNACK announced; zero in the outcome disables the check. A connection that does not log in is closed once it is silent.",
 ["schedules","inputs"],"all keep-alive values, activity times and check times",
 "Tests cannot sample time values.",
 ["client.cpp","threaddata.cpp"],[("expiry test","client.cpp: keepAliveExpired"),("check queue","threaddata.cpp: doKeepAliveCheck")],["connection closed"])
p("C29","Every packet the server sends is well-formed and means what was intended",
 "Each packet written decodes, by the MQTT rules of the connection's version, to the content it was built from: its length field is exact, its property section consistent, and no bytes are missing or left over. What the server itself reads back from such a packet equals what was put in.",
 ["inputs","configurations"],"all packet types the server emits with arbitrary contents within the bound, for each protocol version",
 "Tests read back a few packets with the same code that wrote them.",
 ["mqttpacket.cpp","types.cpp","mqtt5properties.cpp","client.cpp"],[("serialisers","mqttpacket.cpp constructors"),("length calculation","types.cpp: getLengthWithoutFixedHeader")],["bytes written"])
p("C30","Bytes queued for a client reach its socket exactly once and in order",
 "Whatever amounts the operating system accepts per write, including none or an interruption, the bytes a client receives are exactly the packets written for it, in order, without loss, duplication or interleaving. When a packet does not fit the buffer limit it is dropped as a whole.",
 ["schedules","fault_sequences"],"all sequences of packet writes and per-call accepted amounts or errors within the bound",
 "Loopback sockets accept everything.",
 ["client.cpp","iowrapper.cpp","cirbuf.cpp"],[("flush","client.cpp: writeBufIntoFd")],["bytes passed to write()"])
p("C31","Saved sessions come back as they were",
 "Loading a saved session file restores each persistent session with its subscriptions and their options, its pending messages in order with identifiers, its QoS 2 state, its will and its remaining expiry. Sessions that end on disconnect are not restored.",
 ["inputs","histories"],"all session contents within the bound, all ages of the file",
 "Tests save and load one fixed state.",
 ["sessionsandsubscriptionsdb.cpp","persistencefile.cpp","subscriptionstore.cpp"],[("encoder/decoder","sessionsandsubscriptionsdb.cpp")],["state after load"])
p("C32","Saved retained messages come back as they were",
 "Loading a saved retained-message file restores each message, other than those on topics that begin with a dollar sign, with topic, payload, QoS, properties and sender, with its remaining lifetime reduced by the time passed. No message is lost, duplicated or altered.",
 ["inputs"],"all message contents, ages and clock values within the bound",
 "Tests save and load fixed messages at the present date.",
 ["retainedmessagesdb.cpp","persistencefile.cpp"],[("encoder/decoder","retainedmessagesdb.cpp")],["messages after load"])
p("C33","A crash or write error while saving never costs the previous state file",
 "At whatever point saving is interrupted by a crash or an input/output error, the state file on disk is either the complete previous version or the complete new one. The failure is reported without taking the server down.",
 ["crash_points","fault_sequences"],"every file-system call of a save as crash or failure point",
 "Tests never fail a write.",
 ["persistencefile.cpp","retainedmessagesdb.cpp","sessionsandsubscriptionsdb.cpp","persistencefunctions.cpp"],[("write to temporary, sync, rename","persistencefile.cpp: closeFile")],["file-system calls made"])
p("C34","A damaged state file is refused, never half-loaded",
 "A state file whose content does not match its stored digest, or that is truncated, is not loaded and is set aside. Even a file with a correct digest but nonsensical content cannot corrupt memory or make the server hang: it is loaded or gives an error.",
 ["inputs"],"all file contents up to the bound",
 "Tests damage one byte of one file.",
 ["persistencefile.cpp","retainedmessagesdb.cpp","sessionsandsubscriptionsdb.cpp"],[("digest check","persistencefile.cpp: verifyHash")],["load result, rename call"])
p("C35","WebSocket transport is transparent for MQTT bytes",
 "MQTT bytes received in WebSocket binary frames are the concatenation of the unmasked frame payloads, independent of framing and segmentation; pings are answered with their payload, and close, fragmented, text or malformed frames close the connection. Bytes sent are wrapped in well-formed unmasked frames whose payloads concatenate to the MQTT stream.",
 ["inputs","schedules"],"all frame sequences, maskings, lengths and segmentations within the bound",
 "Tests cover a few frames.",
 ["iowrapper.cpp"],[("frame decoder","iowrapper.cpp: websocketBytesToReadBuffer"),("frame encoder","iowrapper.cpp: writeAsMuchOfBufAsWebsocketFrame")],["decoded bytes, bytes written"])
p("C36","The HTTP upgrade is granted only to a proper WebSocket request for MQTT",
 "A connection becomes a WebSocket only after a complete GET request with upgrade headers, version 13, a key and an MQTT subprotocol; anything else is answered with an error or closed, and never treated as MQTT. Parsing arbitrary header bytes is safe.",
 ["inputs"],"all header byte strings within the bound",
 "Tests use one good request.",
 ["http.cpp","iowrapper.cpp"],[("header parser","http.cpp: parseHttpHeader")],["response, upgrade state"])
p("C37","The proxy header yields the address it states, or the connection closes",
 "For a listener behind a proxy the client address is exactly the one in a well-formed proxy header; malformed headers, and those stating no address, close the connection. Type-length-value extensions are parsed within bounds and yield exactly the fields present.",
 ["inputs"],"all proxy headers and extension bytes within the bound",
 "Tests use a handful of headers.",
 ["haproxy.cpp","iowrapper.cpp"],[("header decoder","iowrapper.cpp: readHaProxyHeader"),("TLV decoder","haproxy.cpp")],["address used, exception"])
p("C38","Network ranges match exactly the addresses they contain",
 "An address matches a configured network range if and only if it has the same family and its leading prefix bits equal those of the range, for IPv4 and IPv6 and every prefix length. Hence a client-supplied address is honoured only from the configured proxies.",
 ["inputs","configurations"],"all addresses, networks and prefix lengths",
 "Tests check a few ranges.",
 ["network.cpp","settings.cpp","client.cpp"],[("prefix match","network.cpp: Network::match")],["match result"])
p("C39","Delayed work runs once, not early, and not after being cancelled",
 "A task scheduled with a delay runs exactly once at the first opportunity after its time, in order of time, unless cancelled, after which it never runs. Scheduling or cancelling other tasks, also from within a task, does not disturb it.",
 ["histories","schedules"],"all sequences of add, cancel, time steps and runs within the bound",
 "Tests check a fixed sequence.",
 ["queuedtasks.cpp"],[("task queue","queuedtasks.cpp")],["which tasks ran and when"])
p("C40","Server limits hold for every client",
 "Configured limits on QoS, topic depth, retained payload size and count, wildcard depth, subscription filter count and string length are enforced for every request, and a request within the limits is not refused because of them. A limited client cannot affect others.",
 ["inputs","configurations"],"all limit values and requests within the bound",
 "Tests use one value per limit.",
 ["mqttpacket.cpp","subscriptionstore.cpp","settings.cpp","session.cpp"],[("limit checks","mqttpacket.cpp")],["reason codes, effects"])
p("C41","Plugin failures and plugin decisions stay contained",
 "An exception or error return from a plugin hook never propagates to other clients or the server, and counts as refusal for security decisions. A plugin's changes to a message or subscription are applied to exactly that message or subscription.",
 ["fault_sequences","configurations"],"all hook outcomes (allow, deny, error, throw) at each hook",
 "Tests use a cooperative plugin.",
 ["plugin.cpp","mqttpacket.cpp"],[("hook wrappers","plugin.cpp")],["decision returned"])
p("C42","Bridged topics are mapped between prefixes exactly",
 "A message going over a bridge has its local prefix replaced by the remote prefix and vice versa, exactly when it has that prefix; other messages are not altered. A bridge never gets back the message it delivered.",
 ["inputs","configurations"],"all topics and prefix pairs within the bound",
 "Tests use one pair of prefixes.",
 ["bridgeconfig.cpp","mqttpacket.cpp","session.cpp","client.cpp"],[("prefix mapping","client.cpp / mqttpacket.cpp")],["topics written/published"])
p("C43","Concurrent threads never lose, duplicate or corrupt state, and never deadlock",
 "Whatever the interleaving of worker threads, each accepted message is delivered once to each matching subscriber, shared state is only accessed under its lock, and no schedule leads to deadlock. Results equal those of some sequential order.",
 ["schedules"],"all interleavings of a bounded number of threads and operations at synchronisation points",
 "Tests observe a few accidental schedules.",
 ["subscriptionstore.cpp","session.cpp","client.cpp","threaddata.cpp","mutexowned.h","lockedweakptr.cpp"],[("lock-owning wrappers","mutexowned.h"),("read-write locks","subscriptionstore.cpp")],["deliveries, lock operations"])
p("C44","TLS connections authenticate peers as configured",
 "With certificate verification configured, a connection without a certificate that verifies is refused, and a user name taken from a certificate is the one in that certificate. A bridge configured to verify does not connect to an unverified server.",
 ["inputs","configurations"],"all certificates and verification modes",
 "Tests use fixed certificates.",
 ["iowrapper.cpp","x509manager.cpp","sslctxmanager.cpp","client.cpp"],[("verification mode","iowrapper.cpp: setSslVerify")],["handshake outcome"])
p("C45","Configuration is applied as written or refused",
 "Every configuration option is either applied with exactly the value written or the configuration is refused with an error; a refused reload leaves the running configuration unchanged. Values out of range are never silently truncated.",
 ["inputs","configurations"],"all configuration files",
 "Tests cover selected options.",
 ["configfileparser.cpp","settings.cpp","mainapp.cpp"],[("parser","configfileparser.cpp: loadFile")],["settings in effect"])
p("C46","Extended authentication admits only after the plugin says so",
 "A client using an authentication method is admitted only after the exchange ends with success, in the right order of messages and with the same method throughout; a failed re-authentication ends the connection. No other packet is acted on in between.",
 ["histories","configurations"],"all sequences of CONNECT/AUTH packets and plugin answers within the bound",
 "Tests use one scripted exchange.",
 ["mqttpacket.cpp","threaddata.cpp","client.cpp"],[("authentication exchange","mqttpacket.cpp: handleExtendedAuth; threaddata.cpp: continuationOfAuthentication")],["AUTH/CONNACK/DISCONNECT bytes"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
print(len(P))
