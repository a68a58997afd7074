ID='alias-before-write'; PROP='C20'
NEEDS='a client with a topic alias maximum and a small maximum packet size; the first message on a topic is too large for it, the second is not'
BREAKS='The alias is remembered even when the packet that introduces it is dropped, so later messages arrive with an alias the client has never seen and without a topic.'
EDITS=[('client.cpp','    if (dropReason == PacketDropReason::Success && topic_alias_next > 0)','    if (dropReason != PacketDropReason::ClientError && topic_alias_next > 0)')]
DEMO='''
def t(sv):
    a = Client(sv.port); a.login('a', props=p4(39, 60) + p2(34, 5)); a.send(subscribe(1, [('topic', 0)])); a.want(9)
    b = Client(sv.port); b.login('b'); b.send(publish('topic', 'x' * 200)); b.send(publish('topic', 'small'))
    m = a.want(3, 3); print(m and (m.topic, m.props, m.payload)); return m is not None and m.topic == 'topic' and m.payload == b'small'
run(t)
'''
