from vlib.run import Job
CHECKS = {}
def C(pid, jobs, **kw): CHECKS[pid] = dict(jobs=jobs, **kw)

C('C02', [Job('c02_cirbuf.cpp', 'fsx_arith', bounds='every power-of-two capacity up to 2^31, every head, tail and amount', tus=['cirbuf', 'utils'], covers=['done']),
          Job('c02_cirbuf.cpp', 'fsx_ops', bounds='capacities 2, 4, 8; every start position and fill; any 2 (quick) or 3 (thorough) operations, symbolic contents', tus=['cirbuf', 'utils'], shards={'op': 10}, t=dict(defs=('NOPS=3',)), covers=['grown', 'wrapped', 'shrunk']),
          Job('c02_cirbuf.cpp', 'fsx_limit', bounds='growth factors 2^30, 2^31', tus=['cirbuf', 'utils'], covers=['refused'])])
C('C04', [Job('c04_varint.cpp', 'fsx_varint', bounds='every 32-bit value', covers=['refused', '1 byte', '2 bytes', '3 bytes', '4 bytes']),
          Job('c04_varint.cpp', 'fsx_decode', bounds='every byte sequence of length 0 to 6', covers=['refused', 'four bytes']),
          Job('c04_varint.cpp', 'fsx_roundtrip', bounds='every value up to 268435455', covers=['round trip']),
          Job('c04_varint.cpp', 'fsx_header', bounds='every header of up to 7 received bytes, every packet size limit, before and after login', covers=['refused', 'complete packet'])])
U = ['utils', 'threadlocalutils', 'exceptions', 'globals', 'threadglobals', 'settings', 'cirbuf']
C('C05', [Job('c05_utf8.cpp', 'fsx_all', bounds='every string of up to 4 bytes (5 thorough)', covers=['valid', 'invalid'], t=dict(defs=('N=5',))),
          Job('c05_utf8.cpp', 'fsx_window', bounds='3 (4 thorough) arbitrary consecutive bytes at 13 offsets in strings of up to 52 bytes, ASCII or two-byte filler', shards={'offset': 13}, t=dict(defs=('WIN=4',)), covers=['valid', 'invalid']),
          Job('c05_utf8.cpp', 'fsx_pair', bounds='two arbitrary bytes at any of 16 and 20 positions of a 36-byte string with or without a two-byte character', shards={'multi': 3}, covers=['valid', 'invalid']),
          Job('c05_utf8.cpp', 'fsx_long', bounds='lengths 65520 to 65535', covers=['long'])])
C('C07', [Job('c07_topics.cpp', 'fsx_funcs', bounds='every string of up to 7 bytes (9 thorough)', shards={'len': 8}, t=dict(defs=('N=9',), shards={'len': 10}), covers=['valid filter', 'invalid filter']),
          Job('c07_topics.cpp', 'fsx_split', bounds='4 arbitrary bytes at 9 offsets in strings of up to 51 bytes', covers=['several levels']),
          Job('c07_topics.cpp', 'fsx_subscribe', bounds='every printable ASCII filter of up to 3 (4 thorough) characters, MQTT 3.1.1 and 5', t=dict(defs=('M=4',)), covers=['admitted', 'refused']),
          Job('c07_topics.cpp', 'fsx_share', bounds='share names of up to 2 and filters of up to 3 printable characters', covers=['admitted', 'refused']),
          Job('c07_topics.cpp', 'fsx_publish', bounds='every printable ASCII topic of up to 3 (4 thorough) characters, QoS 0 and 1, retained or not', t=dict(defs=('M=4',)), covers=['admitted', 'refused'])])
C('C03', [Job('c03_stream.cpp', 'fsx_conversation', bounds='4 conversations with symbolic contents, every 1 (2 thorough) cut points, delivered in one wake-up or several', defs=('CUTS=1',), t=dict(defs=('CUTS=2',), shards={'kind': 4}), covers=['played']),
          Job('c03_stream.cpp', 'fsx_prefix', bounds='every prefix of a PUBLISH with symbolic payload', defs=('CUTS=1',), covers=['done']),
          Job('c03_stream.cpp', 'fsx_oversize', bounds='every 4-byte remaining length', defs=('CUTS=1',), covers=['malformed', 'too large', 'within']),
          Job('c03_stream.cpp', 'fsx_sizes', bounds='remaining lengths 127 to 129, 16383 and 16384, cut after 0 to 5 bytes or 1 to 6 bytes before the end', defs=('CUTS=1',), covers=['cut'], shards={'remaining length': 5}),
          Job('c03_stream.cpp', 'fsx_burst', bounds='6 packets of 3 sizes, cut in 8 places, 128-byte buffers', defs=('CUTS=1',), covers=['burst'])])
C('C06', [Job('c06_match.cpp', 'fsx_text', bounds='every valid filter of up to 3 characters over {a / + # $} and topic of up to 3 over {a b / $} (4 thorough)', shards={'filter len': 3, 'topic len': 3}, t=dict(defs=('FL=4', 'TL=4'), shards={'filter len': 4, 'topic len': 4}), covers=['match', 'no match']),
          Job('c06_match.cpp', 'fsx_levels', bounds='filters and topics of up to 4 levels, each level symbolic', shards={'filter levels': 4}, covers=['match', 'no match']),
          Job('c06_match.cpp', 'fsx_two', bounds='two filters and a topic of up to 2 symbolic levels', covers=['match', 'no match']),
          Job('c06_match.cpp', 'fsx_history', bounds='any 3 (4 thorough) subscribe/unsubscribe operations of two clients over three filters, two of them symbolic', defs=('OPS=3',), shards={'op': 5, 'filter': 3}, t=dict(defs=('OPS=4',)), covers=['first', 'second']),
          Job('c06_match.cpp', 'fsx_purge', bounds='symbolic filters and topic of up to 2 levels, other subscription kept, removed or expired', covers=['purged'])])
C('C08', [Job('c08_subscribe.cpp', 'fsx_requests', bounds='any 2 (3 thorough) requests of 1 or 2 filters each, symbolic filter, options, identifiers; three protocol versions', defs=('NF=2',), t=dict(defs=('NF=3',), shards={'version': 3}), shards={'version': 3}, covers=['subscribed', 'unsubscribed']),
          Job('c08_subscribe.cpp', 'fsx_shared', bounds='symbolic filter and share name', defs=('NF=2',), covers=['separate']),
          Job('c08_subscribe.cpp', 'fsx_malformed', bounds='every options byte, packet identifier, header flags and truncation of a request', defs=('NF=2',), covers=['bad options', 'pid 0', 'truncated'])])
C('C09', [Job('c09_options.cpp', 'fsx_delivery', bounds='every options byte, subscription identifier, QoS, retain, dup, payload and property contents; MQTT 3.1.1 and 5 on both sides', shards={'subscriber version': 2, 'publisher version': 2, 'qos': 3}, covers=['no local', 'delivered', 'with id']),
          Job('c09_options.cpp', 'fsx_many', bounds='three overlapping subscriptions of two clients, symbolic options', shards={'qos': 3}, covers=['three']),
          Job('c09_options.cpp', 'fsx_mix', bounds='three clients of any version with or without identifier and aliases, symbolic QoS and payload, publisher of either version with or without properties and alias', shards={'publisher version': 2, 'subscriber': 4}, covers=['mixed']),
          Job('c09_options.cpp', 'fsx_queued', bounds='symbolic options, identifier and payload; publish or will queued for an offline client', covers=['queued publish', 'queued will'])])
C('C10', [Job('c10_shared.cpp', 'fsx_groups', bounds='two (three thorough) members, a second group and a plain subscriber, symbolic filter and topic, any 2 (3 thorough) membership operations, three targeting modes', defs=('OPS=2',), t=dict(defs=('OPS=3', 'MEM=3')), shards={'targeting': 3, 'op': 6}, covers=['delivered', 'no member']),
          Job('c10_shared.cpp', 'fsx_refuse', bounds='every options byte', defs=('OPS=2',), covers=['done'])])
C('C11', [Job('c11_retained.cpp', 'fsx_sets', bounds='any 2 (3 thorough) retained publishes or removals on symbolic topics of 1 or 2 levels, then any filter of 1 or 2 levels', defs=('SETS=2',), t=dict(defs=('SETS=3',)), shards={'shape': 2, 'max qos': 3}, covers=['received', 'nothing']),
          Job('c11_retained.cpp', 'fsx_levels', bounds='four fixed topics and one symbolic of up to 3 levels, filters of up to 3 symbolic levels', covers=['received', 'nothing']),
          Job('c11_retained.cpp', 'fsx_handling', bounds='every options byte; new, existing, removed and overlapping subscription; shared or not', covers=['sent', 'not sent']),
          Job('c11_retained.cpp', 'fsx_expiring', bounds='nested topics of which any have expired, every filter of up to 3 symbolic levels', covers=['received', 'nothing'], shards={'filter levels': 3}),
          Job('c11_retained.cpp', 'fsx_quota', bounds='3 retained messages, every receive maximum from 1 to 4', covers=['all'])])
C('C12', [Job('c12_expiry.cpp', 'fsx_queued', bounds='every 32-bit expiry, every waiting time up to 1000000 s', covers=['expired', 'delivered']),
          Job('c12_expiry.cpp', 'fsx_retained', bounds='every expiry and configured limit, every waiting time up to 1000000 s', covers=['expired', 'delivered']),
          Job('c12_expiry.cpp', 'fsx_resend', bounds='every 32-bit expiry, every waiting time up to 1000000 s', covers=['expired', 'delivered']),
          Job('c12_expiry.cpp', 'fsx_will', bounds='every 32-bit expiry, every connection and waiting time up to 1000000 s', covers=['will'])])
FLOW = lambda e, n, b, tn=None, **k: Job('c13_flow.cpp', e, bounds=b, defs=('OPS=%d' % n,), t=dict(defs=('OPS=%d' % (tn or n + 1),)), **k)
HIST = lambda n=2: FLOW('fsx_history', n, 'any %d (%d thorough) operations (publish QoS 1 or 2, any of four acknowledgements with any identifier, loss of the connection, reconnect), any receive maximum, then everything finished' % (n, n + 1), shards={'persistent': 2, 'op': 7}, covers=['sent', 'drained'])
C('C13', [Job('c13_ids.cpp', 'fsx_set', bounds='any 2 (3 thorough) operations on any identifiers (up to 511 once 8 or 9 are in use) with 0, 8 or 9 in use', t=dict(defs=('IOPS=3',)), shards={'in use': 3}, covers=['in use', 'free', 'many']),
          Job('c13_ids.cpp', 'fsx_full', bounds='all 65535 identifiers in use', covers=['full']),
          Job('c13_ids.cpp', 'fsx_wrap', bounds='every counter value', covers=['wrapped']),
          HIST(3)])
C('C14', [HIST(3),
          FLOW('fsx_qos1', 3, 'two QoS 1 messages, then any 3 (5 thorough) of publish, acknowledge any identifier, drop, reconnect with any receive maximum', 5, shards={'op': 3}, covers=['resent']),
          FLOW('fsx_v311', 2, 'the same for MQTT 3.1.1, 2 (3 thorough) operations', shards={'persistent': 2, 'op': 6}, covers=['resent'])])
C('C16', [FLOW('fsx_qos2', 3, 'a QoS 2 message, then any 3 (4 thorough) of publish, PUBREC, PUBCOMP with any identifier, drop, reconnect', shards={'op': 4}, covers=['released', 'completed', 'release repeated', 'unknown']),
          FLOW('fsx_v311', 2, 'MQTT 3.1.1, 2 (3 thorough) operations', shards={'persistent': 2, 'op': 6}, covers=['release repeated']), HIST(2)])
C('C17', [HIST(3), FLOW('fsx_quota', 3, 'receive maximum 1 or 2, any 3 (4 thorough) of publish and acknowledgements with any identifier', shards={'first receive maximum': 2, 'persistent': 2, 'op': 6}, covers=['no room', 'acknowledged', 'completed', 'refused'])])
C('C15', [Job('c15_incoming.cpp', 'fsx_once', bounds='any 3 (4 thorough) of publish with any identifier and dup flag, release of any identifier, reconnect; MQTT 3.1.1 and 5, persistent or not', defs=('OPS=3',), t=dict(defs=('OPS=4',)), shards={'version': 2, 'persistent': 2, 'op': 3}, covers=['passed on', 'repeated', 'released', 'nothing to release', 'reconnected']),
          Job('c15_incoming.cpp', 'fsx_burst', bounds='two symbolic identifiers, within one read, over a takeover or a reconnect', covers=['same', 'different']),
          Job('c15_incoming.cpp', 'fsx_retained', bounds='two symbolic identifiers', covers=['retained'])])
C('C18', [Job('c18_queue.cpp', 'fsx_queue', bounds='any 3 (4 thorough) of filing under or erasing any of five identifiers, expiring after any time', defs=('OPS=3',), t=dict(defs=('OPS=4',)), shards={'expiring': 2, 'op': 3}, covers=['filed', 'erased', 'not there', 'cleared']),
          Job('c18_queue.cpp', 'fsx_limits', bounds='4 (5 thorough) messages of two sizes, every message limit 1 to 5, byte limit 1 to 40, receive maximum 1 to 5', defs=('OPS=4',), t=dict(defs=('OPS=5',)), covers=['kept', 'dropped'])])
C('C19', [Job('c19_maxsize.cpp', 'fsx_live', bounds='every limit from 50 to 90, 3 messages of 6 sizes, QoS 0 to 2', shards={'persistent': 2, 'qos': 3}, covers=['fits', 'does not fit']),
          Job('c19_maxsize.cpp', 'fsx_other', bounds='every limit from 2 to 100; retained, resent, will messages and answers', shards={'what': 4}, covers=['one of two', 'both', 'answers']),
          Job('c19_maxsize.cpp', 'fsx_others', bounds='every limit from 50 to 90', covers=['dropped', 'delivered'])])
C('C20', [Job('c20_alias.cpp', 'fsx_incoming', bounds='any 3 (4 thorough) publishes with or without topic, aliases 0 to 3, 65534 and 65535, three server maxima', defs=('OPS=3',), t=dict(defs=('OPS=4',)), shards={'server maximum': 3, 'with alias': 2}, covers=['refused', 'reassigned', 'by alias']),
          Job('c20_alias.cpp', 'fsx_scope', bounds='any two aliases up to 5', covers=['scope']),
          Job('c20_alias.cpp', 'fsx_outgoing', bounds='any 4 (5 thorough) messages on three topics, any client maximum, reconnect, messages that are dropped for their size', defs=('OPS=3',), t=dict(defs=('OPS=4',)), shards={'server limit': 2, 'small packets': 2, 'persistent': 2}, covers=['dropped', 'alias used', 'alias set', 'no alias', 'reconnected'])])
C('C21', [Job('c21_login.cpp', 'fsx_before', bounds='one or two packets of any type before login', shards={'packet': 14}, covers=['logged in later', 'closed']),
          Job('c21_login.cpp', 'fsx_refused', bounds='six login results, any packet sent along or after, MQTT 3.1.1 and 5', shards={'result': 6}, covers=['refused', 'undecided']),
          Job('c21_login.cpp', 'fsx_async', bounds='symbolic payloads', covers=['admitted', 'refused']),
          Job('c21_login.cpp', 'fsx_second', bounds='same or other client identifier, clean or not, two versions', covers=['second'])])
C('C38', [Job('c38_network.cpp', 'fsx_v4', bounds='every IPv4 network, prefix length and address', shards={'prefix length': 33}, covers=['in', 'out']),
          Job('c38_network.cpp', 'fsx_v6', bounds='every IPv6 network in full, every one with only its first and last or its last two groups set; every prefix length and address', shards={'form': 3}, covers=['in', 'out']),
          Job('c38_network.cpp', 'fsx_bad', bounds='14 malformed notations', covers=['bad']),
          Job('c38_network.cpp', 'fsx_list', bounds='up to two ranges of any address, four prefix lengths', covers=['in', 'out'])])
C('C39', [Job('c39_tasks.cpp', 'fsx_history', bounds='any 4 (5 thorough) operations, the first scheduling: scheduling (any delay up to 65535 ms, once or repeated; the task does nothing, adds a task, cancels one or throws), cancelling, running at any later time', defs=('OPS=4',), t=dict(defs=('OPS=5',)), shards={'what it does': 4, 'op': 4}, covers=['ran', 'nothing due', 'cancelled', 'cancels', 'adds', 'throws', 'cancelled in the same run']),
          Job('c39_tasks.cpp', 'fsx_loop', bounds='any 3 (4 thorough) of the same through the worker loop and the plugin interface', defs=('OPS=3',), t=dict(defs=('OPS=4',)), shards={'what it does': 4}, covers=['ran', 'cancelled']),
          Job('c39_tasks.cpp', 'fsx_wait', bounds='every pair of 32-bit delays and every 32-bit waiting time', defs=('OPS=3',), covers=['waited'])])
C('C37', [Job('c37_haproxy.cpp', 'fsx_header', bounds='every version, command, family and protocol, eleven lengths, every address, every wrong signature byte', shards={'length': 11}, covers=['admitted', 'with extension', 'local', 'refused']),
          Job('c37_haproxy.cpp', 'fsx_short', bounds='every proper prefix of an IPv4 or IPv6 header', covers=['short']),
          Job('c37_haproxy.cpp', 'fsx_tlv', bounds='every extension of up to 7 (9 thorough) bytes with values 0 to 3 and 32, in one or two segments', defs=('EXT=7',), t=dict(defs=('EXT=9',), shards={'extension bytes': 10}), shards={'extension bytes': 8}, covers=['accepted', 'refused']),
          Job('c37_haproxy.cpp', 'fsx_cn', bounds='certificate names of up to 3 characters, with and without other fields, both verification modes', covers=['named', 'no name']),
          Job('c37_haproxy.cpp', 'fsx_fields', bounds='five combinations of fields, any contents', covers=['fields'])])
W = lambda e, b, **k: Job('c35_websocket.cpp', e, bounds=b, **k)
C('C35', [W('fsx_frames', 'a login, subscription and QoS 1 publish split into two frames in 12 places, any masking, with an empty frame, ping or pong in between, cut anywhere', shards={'between': 4}, covers=['frames']),
          W('fsx_drip', 'handshake and conversation byte by byte, three frame sizes', covers=['drip']),
          W('fsx_control', 'every first byte, three length forms, any masking, up to 4 bytes', shards={'bytes': 5}, covers=['closed', 'close frame', 'binary', 'ping', 'pong']),
          W('fsx_sizes', '21 payload sizes around 126, 127 and 65536, three length forms, cut after up to 11 bytes', shards={'size': 21}, covers=['sizes']),
          W('fsx_out', 'two messages of three sizes and a ping, any of five amounts accepted in between, three write sizes', shards={'size': 3, 'accepted': 5}, covers=['out']),
          W('fsx_fin', 'up to three messages of four sizes, with or without goodbye and close frame, then end of stream', covers=['fin']),
          W('fsx_pings', 'three pings of eight sizes', covers=['pings']),
          W('fsx_answer', 'any of six amounts accepted at first, three write sizes', covers=['answer']),
          W('fsx_zero', 'both long length forms', covers=['zero'])])
C('C36', [Job('c36_http.cpp', 'fsx_request', bounds='the proper request with any one of its lines missing, malformed, renamed, with another value, another place or letter case; both line ends', shards={'line': 7}, covers=['granted', 'refused']),
          Job('c36_http.cpp', 'fsx_prefix', bounds='a request cut anywhere', covers=['prefix']),
          Job('c36_http.cpp', 'fsx_any', bounds='4 (6 thorough) arbitrary bytes in six places of a request', defs=('FREE=4',), t=dict(defs=('FREE=6',)), shards={'shape': 6}, covers=['granted', 'not granted', 'refused']),
          Job('c36_http.cpp', 'fsx_other', bounds='MQTT instead of HTTP, and a request beyond the limit', covers=['mqtt', 'endless']),
          Job('c36_http.cpp', 'fsx_realip', bounds='five proxy configurations, four stated addresses', covers=['real ip'])])

C('C30', [Job('c30_output.cpp', 'fsx_writes', bounds='any 3 (4 thorough) of publishing (three sizes, QoS 0 or 1), a ping, or the socket accepting one of four amounts; three write sizes; a 256 byte buffer', defs=('OPS=3',), t=dict(defs=('OPS=4',)), shards={'version': 2, 'largest write': 3, 'op': 5}, covers=['received', 'dropped']),
          Job('c30_output.cpp', 'fsx_amounts', bounds='two accepted amounts, every value from 0 to more than is waiting; two and three sizes, QoS 0 and 1', shards={'first size': 2, 'second size': 3, 'qos': 2}, covers=['amounts']),
          Job('c30_output.cpp', 'fsx_goodbye', bounds='up to 20 single bytes accepted', covers=['taken over', 'error']),
          Job('c30_output.cpp', 'fsx_error', bounds='three errors after up to 5 accepted bytes', covers=['error']),
          Job('c30_output.cpp', 'fsx_wrap', bounds='eight positions in the buffer, eight sizes, every accepted amount up to 60', shards={'skew': 8}, covers=['wrap'])])

C('C22', [Job('c22_login.cpp', 'fsx_matrix', bounds='every combination of password file (none, SHA512, PBKDF2), plugin (none, five answers, an exception), anonymous logins in general and for the listener, empty user names; known, unknown, empty or no user; every two-letter password or none', shards={'password file': 3, 'plugin': 7}, covers=['admitted', 'refused']),
          Job('c22_login.cpp', 'fsx_sequence', bounds='three logins of either of two users with any password of one or two bytes', shards={'anonymous': 2, 'kind': 2}, covers=['right', 'wrong']),
          Job('c22_login.cpp', 'fsx_password', bounds='every right and given password of up to 3 bytes', covers=['right', 'wrong']),
          Job('c22_login.cpp', 'fsx_user', bounds='every name of up to 3 letters of three', covers=['listed', 'not listed']),
          Job('c22_login.cpp', 'fsx_damaged', bounds='any byte of 20 places of a line replaced by any other', covers=['damaged']),
          Job('c22_login.cpp', 'fsx_reload', bounds='every new password of two letters of four, the file changed or removed', covers=['changed', 'removed']),
          Job('c22_login.cpp', 'fsx_missing', bounds='every one byte password', covers=['missing'])])

C('C23', [Job('c23_acl.cpp', 'fsx_one', bounds='one rule of any kind and grant, any filter of up to two levels of names, wildcards and placeholders; four users; every topic of up to two levels of three names', shards={'section': 4, 'grant': 4}, covers=['read', 'write', 'neither']),
          Job('c23_acl.cpp', 'fsx_rules', bounds='any 2 (3 thorough) rules of any kind and grant on five overlapping filters', defs=('RULES=2',), t=dict(defs=('RULES=3',)), shards={'section': 4, 'grant': 4}, covers=['read', 'write', 'neither']),
          Job('c23_acl.cpp', 'fsx_names', bounds='every user name and topic of up to two characters of three or four, three patterns', covers=['read', 'write', 'neither']),
          Job('c23_acl.cpp', 'fsx_format', bounds='ten ways to write a rule', covers=['format']),
          Job('c23_acl.cpp', 'fsx_broken', bounds='any character of the keywords of two lines replaced by any other, with or without a good file before', covers=['broken']),
          Job('c23_acl.cpp', 'fsx_reload', bounds='any two single-rule files', covers=['reload']),
          Job('c23_acl.cpp', 'fsx_missing', bounds='every topic of up to two levels of two names', covers=['missing']),
          Job('c23_acl.cpp', 'fsx_will', bounds='four grants, rule or pattern', covers=['will'])])

D = lambda e, b, **k: Job('c24_denied.cpp', e, bounds=b, **k)
C('C24', [D('fsx_publish', 'six ways to deny, five plugin interfaces, any identifier, QoS 0 to 2, retained or not, empty or not, MQTT 3.1.1 and 5', shards={'plugin version': 5}, covers=['publish']),
          D('fsx_subscribe', 'any subset of three filters denied', shards={'plugin version': 5}, covers=['subscribe']),
          D('fsx_read', 'live, retained, queued and shared messages, QoS 0 to 2', shards={'plugin version': 5}, covers=['live', 'retained', 'away', 'shared']),
          D('fsx_will', 'denied at registration, publication or receipt; delayed or not, retained or not', shards={'plugin version': 5}, covers=['published', 'denied']),
          D('fsx_restricted', 'two answers, QoS 0 to 2', covers=['dropped', 'not retained']),
          D('fsx_restricted_subscribe', 'two answers', covers=['dropped', 'not retained'])])

C('C25', [Job('c25_takeover.cpp', 'fsx_history', bounds='a connect followed by any 3 (4 thorough) of: connect (any version, clean or not, session kept or not), subscribe, disconnect (properly or not), publish (acknowledged or not, symbolic payload); one thread', defs=('OPS=4', 'THREADS=1'), t=dict(defs=('OPS=5', 'THREADS=1')), shards={'version': 3, 'op': 4}, covers=['taken over', 'replaced', 'pending delivered', 'end']),
          Job('c25_takeover.cpp', 'fsx_history', bounds='the same with two worker threads, 2 (3 thorough) operations after the first', defs=('OPS=3', 'THREADS=2'), t=dict(defs=('OPS=4', 'THREADS=2')), shards={'version': 3}, covers=['taken over', 'replaced', 'end']),
          Job('c25_takeover.cpp', 'fsx_ids', bounds='every pair of printable identifiers of 1 or 2 characters', defs=('OPS=4', 'THREADS=1'), covers=['same', 'different']),
          Job('c25_takeover.cpp', 'fsx_user', bounds='every pair of one-character user names, or no user name; session online or offline', defs=('OPS=4', 'THREADS=1'), covers=['same user', 'other user']),
          Job('c25_takeover.cpp', 'fsx_late', bounds='6 packets of the older connection handled after the takeover; wills of both, delayed or not; every kind of session', defs=('OPS=4', 'THREADS=1'), covers=['third', 'lost'], shards={'late': 6})])
C('C26', [Job('c26_session.cpp', 'fsx_history', bounds='2 (3 thorough) connections of MQTT 3.1.1 or 5 with any requested interval, ended in 3 ways with any new interval, with cleanups at any times (whole seconds, waits up to 2^20 s), then a reconnect', defs=('ROUNDS=2',), t=dict(defs=('ROUNDS=3',), shards={'end': 3, 'version': 2, 'wait': 2}), shards={'end': 3, 'version': 2, 'wait': 2}, covers=['removed', 'resumed', 'refused', 'alive', 'ended']),
          Job('c26_session.cpp', 'fsx_limit', bounds='one connection as above with any configured limit, also ended with reason 4', defs=('ROUNDS=2',), shards={'end': 4}, covers=['removed', 'alive', 'ended']),
          Job('c26_session.cpp', 'fsx_gone', bounds='any interval and time away', defs=('ROUNDS=2',), covers=['alive', 'gone', 'shared alive', 'shared gone'])])
C('C27', [Job('c27_will.cpp', 'fsx_history', bounds='2 (3 thorough) connections of one client, MQTT 3.1.1 or 5, clean or not, any will delay and session interval, ended in 7 ways, sweeps at any times (whole seconds), reconnected at any time', defs=('ROUNDS=2',), t=dict(defs=('ROUNDS=3',), shards={'end': 7, 'version': 2, 'clean': 2, 'expiry': 2}), shards={'end': 7, 'version': 2, 'clean': 2}, covers=['published', 'not published', 'delayed', 'finally']),
          Job('c27_will.cpp', 'fsx_content', bounds='every topic of one further character, payload of up to 2 bytes, QoS, retain and properties, three protocol versions', defs=('ROUNDS=2',), covers=['content']),
          Job('c27_will.cpp', 'fsx_none', bounds='wills disabled, login refused, or the CONNECT cut anywhere', defs=('ROUNDS=2',), covers=['none'])])
C('C28', [Job('c28_keepalive.cpp', 'fsx_silence', bounds='every keep-alive, MQTT 3.1.1 or 5, 3 (4 thorough) activities, messages to the client and checks at any times', defs=('NOPS=3',), t=dict(defs=('NOPS=4',)), shards={'version': 2, 'op': 4}, covers=['zero', 'active', 'silent', 'written to']),
          Job('c28_keepalive.cpp', 'fsx_nologin', bounds='3 (4 thorough) pieces of a login and checks at any times', defs=('NOPS=3',), t=dict(defs=('NOPS=4',)), covers=['closed', 'slow']),
          Job('c28_keepalive.cpp', 'fsx_several', bounds='two clients, one with any keep-alive and one with 0, 30 or 60, two checks at any times', shards={'which': 2, 'ping': 3}, covers=['silent'])])
C('C29', [Job('c29_wire.cpp', 'fsx_publish', bounds='PUBLISH sent live, queued, retained and as a will, between MQTT 5 and 3.1.1, each property alone and all together with any values; property sections and packets of sizes around 127/128, 16383/16384 and 70000 bytes', shards={'path': 4, 'publisher': 2, 'receiver': 2}, covers=['to MQTT 5', 'to MQTT 3']),
          Job('c29_wire.cpp', 'fsx_answers', bounds='SUBACK and UNSUBACK for 1 to 127 filters, any packet id', covers=['answered']),
          Job('c29_wire.cpp', 'fsx_connack', bounds='every server limit, keep-alive and session interval', covers=['answer', 'assigned']),
          Job('c29_wire.cpp', 'fsx_client', bounds='CONNECT and SUBSCRIBE as a bridge sends them, three protocol versions', shards={'part': 2, 'version': 3}, covers=['client', 'will'])])
C('C31', [Job('c31_sessions.cpp', 'fsx_messages', bounds='two messages with any state of acknowledgement, six sets of properties, subscription identifier, an incoming QoS 2 message half done; crash or orderly end, resumed with either version', shards={'version': 2, 'qos': 2, 'properties': 6}, covers=['restarted', 'pending']),
          Job('c31_sessions.cpp', 'fsx_subscriptions', bounds='one or two subscriptions of six forms, any options and identifiers', shards={'version': 2, 'form': 6}, covers=['restarted', 'compared']),
          Job('c31_sessions.cpp', 'fsx_lifetime', bounds='any session interval and configured limit, any times online, offline, down and after', shards={'version': 2, 'online': 2, 'orderly': 2}, covers=['restarted', 'resumed', 'new']),
          Job('c31_sessions.cpp', 'fsx_wills', bounds='any will delay and expiry, any times online, offline, down and after', shards={'online': 2, 'orderly': 2}, covers=['restarted', 'will'])])
C('C32', [Job('c32_retained.cpp', 'fsx_messages', bounds='one message with any topic, payload, QoS and properties, or six on topics of all forms; any ages and times down, before and after 2038', shards={'after 2038': 2, 'version': 2, 'properties': 8}, covers=['restarted', 'messages']),
          Job('c32_retained.cpp', 'fsx_sizes', bounds='topics, payloads and properties of nine sizes up to 70000', shards={'which': 3}, covers=['restarted', 'messages']),
          Job('c32_retained.cpp', 'fsx_sender', bounds='any client id and user name', covers=['sender']),
          Job('c32_retained.cpp', 'fsx_largest', bounds='messages of exactly the largest packet size, six limits', covers=['largest'])])
C('C33', [Job('c33_faults.cpp', 'fsx_errors', bounds='a first or second save of the three state files with any one of its file operations failing, once or from then on, writes in part or not at all', shards={'file': 3, 'first save': 2}, covers=['old', 'new', 'failed']),
          Job('c33_faults.cpp', 'fsx_crash', bounds='a crash before any file operation, with or without what was not synced', shards={'file': 3, 'first save': 2}, covers=['old', 'new', 'stopped']),
          Job('c33_faults.cpp', 'fsx_reading', bounds='any one file operation of a load failing, once or from then on', shards={'file': 3}, covers=['read'])])
C('C34', [Job('c34_damage.cpp', 'fsx_damaged', bounds='three state files with any 8 bytes in a row changed after the version, or two pairs of bytes, cut off at any length, or made longer by 12 bytes at most', shards={'file': 3, 'how': 4}, covers=['refused']),
          Job('c34_damage.cpp', 'fsx_nonsense', bounds='any four bytes of six state files replaced, with a correct digest', shards={'file': 3, 'kind': 3}, covers=['error', 'loaded']),
          Job('c34_damage.cpp', 'fsx_cutoff', bounds='six state files cut off at any length, with a correct digest', shards={'file': 3}, covers=['error', 'loaded']),
          Job('c34_damage.cpp', 'fsx_versions', bounds='any last character of the version', covers=['error', 'loaded'])])
C('C46', [Job('c46_extauth.cpp', 'fsx_exchange', bounds='CONNECT and any 4 (5 thorough) further steps: AUTH with any one-letter method, any data byte, every reason code, or without method; SUBSCRIBE; PUBLISH; the late answer; CONNECT again; the connection ends. Eight plugin answers at each step', defs=('OPS=4',), t=dict(defs=('OPS=5',)), shards={'plugin': 7, 'op': 8}, covers=['undecided', 'continued', 'continued re-authentication', 're-authenticated', 'admitted', 'kept packets', 're-authentication refused', 'refused', 'out of order', 're-authentication before admission', 'another method', 'packet before admission', 'answered later', 'gone', 'late answer for nobody', 'will']),
          Job('c46_extauth.cpp', 'fsx_session', bounds='session before or not, clean start or not; meanwhile nothing, another connection made the session (and stays or leaves), ended it, or it expired', covers=['made meanwhile', 'ended meanwhile', 'expired meanwhile', 'present', 'not present', 'taken over']),
          Job('c46_extauth.cpp', 'fsx_nomethod', bounds='every reason code; no, empty or some method; before and after login; MQTT 3.1.1 and 5', covers=['before', 'after']),
          Job('c46_extauth.cpp', 'fsx_unsupported', bounds='any method letter and two data bytes', covers=['refused']),
          Job('c46_extauth.cpp', 'fsx_burst', bounds='62 to 69 packets before the decision', shards={'packets': 8}, covers=['kept', 'too many'])])
C('C40', [Job('c40_limits.cpp', 'fsx_qos', bounds='every maximum QoS, of the server or the listener, both ways of handling MQTT 3; publishing (retained or not), wills and subscribing with every QoS, three versions, symbolic payload', shards={'max qos': 3}, covers=['closed', 'dropped', 'published', 'will refused', 'will', 'subscribed']),
          Job('c40_limits.cpp', 'fsx_mode', bounds='six modes, messages and wills, retained or not, every QoS, two versions, subscriber with retain-as-published or not, symbolic payload', shards={'mode': 6}, covers=['refused', 'delivered', 'not delivered', 'retained']),
          Job('c40_limits.cpp', 'fsx_wildcards', bounds='minimum 0 to 4, filters of one to three levels with any wildcards, shared or not, both deny modes, three versions', shards={'minimum': 5}, covers=['refused', 'no retained messages', 'wildcard granted']),
          Job('c40_limits.cpp', 'fsx_nodes', bounds='limit 0 to 4, depth 0 to 2, reject or log; any three (four thorough) retained messages or removals on seven topics of up to three levels', defs=('STEPS=3',), t=dict(defs=('STEPS=4',)), shards={'limit': 5, 'depth': 3}, covers=['removed', 'replaced', 'rejected']),
          Job('c40_limits.cpp', 'fsx_payload', bounds='limit 0 to 3, three (four thorough) payloads of 0 to 4 symbolic bytes, the last as a will or not', defs=('STEPS=3',), t=dict(defs=('STEPS=4',)), shards={'limit': 4}, covers=['too large', 'none', 'kept']),
          Job('c40_limits.cpp', 'fsx_strings', bounds='limit 4 or 5, any letters, lengths one below to one above the limit, 17 places', shards={'where': 17}, covers=['refused', 'accepted']),
          Job('c40_limits.cpp', 'fsx_levels', bounds='limit 1 to 4, one to five levels (empty or any letter) in PUBLISH, SUBSCRIBE, UNSUBSCRIBE and wills, two versions', shards={'limit': 4}, covers=['refused', 'accepted'])])
C('C41', [Job('c41_plugin.cpp', 'fsx_failing', bounds='seven plugin functions that throw (the login check: or refuses in four ways), five plugin versions, MQTT 3.1.1 and 5, symbolic payload', shards={'function': 7}, covers=['login', 'publish', 'subscribe', 'unsubscribe', 'disconnect', 'periodic', 'reload']),
          Job('c41_plugin.cpp', 'fsx_change', bounds='any combination of changed topic (any letter), QoS, retain flag and properties (any letter); every QoS, retained or not, with a topic alias or not; MQTT 3.1.1 and 5; plugin versions 2 and 5', shards={'changes topic': 2, 'qos': 3}, covers=['changed', 'retained', 'alias']),
          Job('c41_plugin.cpp', 'fsx_subscription', bounds='changed filter (four forms, any letter) and QoS, or not; every QoS; first or second filter of the packet; two versions', shards={'form': 4}, covers=['changed', 'not changed'])])
C('C01', [Job('c01_bytes.cpp', 'fsx_packet', bounds='one packet of any type, flags and body of up to 8 (10 thorough) bytes, before login or after it with MQTT 3.1, 3.1.1 or 5', defs=('LEN=8',), t=dict(defs=('LEN=10',)), shards={'type': 16, 'state': 4}, covers=['survived', 'closed']),
          Job('c01_bytes.cpp', 'fsx_connect', bounds='CONNECT of three versions with any flags and keep-alive, and up to 4 (6 thorough) arbitrary property bytes with any length, or an arbitrary rest of up to 6 (8 thorough) bytes after the header or after the client identifier', defs=('LEN=6', 'NP=4'), t=dict(defs=('LEN=8', 'NP=6')), shards={'form': 3, 'version': 3}, covers=['survived', 'closed']),
          Job('c01_bytes.cpp', 'fsx_properties', bounds='nine packet types with up to 6 (8 thorough) arbitrary property bytes with any length, any reason code', defs=('LEN=6', 'NP=6'), t=dict(defs=('LEN=8', 'NP=8'), shards={'packet': 9, 'property bytes': 9}), shards={'packet': 9, 'property bytes': 7}, covers=['survived', 'closed']),
          Job('c01_bytes.cpp', 'fsx_filters', bounds='filters of up to 5 (7 thorough) arbitrary bytes, after $share or not, with any length; two versions', defs=('LEN=5', 'NP=6'), t=dict(defs=('LEN=7', 'NP=8'), shards={'bytes': 8, 'version': 2, 'unsubscribe': 2, 'shared': 2}), shards={'bytes': 6, 'version': 2, 'unsubscribe': 2, 'shared': 2}, covers=['survived', 'closed'])])
