ID='quota-at-pubrec'; PROP='C17'
NEEDS='a QoS 2 message refused by its receiver with an error PUBREC whose identifier is repeated'
BREAKS='A PUBREC with an error frees a place in the receive window twice when the message is already completed, so more messages are in flight than the client allows.'
EDITS=[('session.cpp','''    const auto it = qos_locked->outgoingQoS2MessageIds.find(packet_id);
    if (it != qos_locked->outgoingQoS2MessageIds.end())
    {
        qos_locked->outgoingQoS2MessageIds.erase(it);
        qos_locked->increaseFlowControlQuota(packet_id);
    }
''','''    const auto it = qos_locked->outgoingQoS2MessageIds.find(packet_id);
    if (it != qos_locked->outgoingQoS2MessageIds.end())
    {
        qos_locked->outgoingQoS2MessageIds.erase(it);
        qos_locked->increaseFlowControlQuota(packet_id);
    }
    else if (!qos_locked->outgoingQoS2MessageIds.empty())
        qos_locked->increaseFlowControlQuota(packet_id);
''')]
BREAKS='A PUBCOMP for an identifier that is not awaiting one frees a place in the receive window (and the identifier) while another release is pending, so more messages are in flight than the client allows.'
NEEDS='two QoS 2 messages, one of them released, and a PUBCOMP for the other or an unknown identifier'
DEMO='''
def t(sv):
    x = Client(sv.port); x.login('x', props=p2(33, 2) + p4(17, 1000)); x.send(subscribe(1, [('t', 2)])); x.want(9)
    a = Client(sv.port); a.login('a')
    def pub(i): a.send(publish('t', 'm%d' % i, 1, i)); a.want(4)
    # QoS 1 publishes give QoS 1 deliveries; use QoS 2
    def pub2(i): a.send(publish('t', 'm%d' % i, 2, i)); a.want(5); a.send(ack(0x62, i)); a.want(7)
    pub2(1); m1 = x.want(3); pub2(2); m2 = x.want(3); x.send(ack(0x50, m1.pid)); x.want(6); x.send(ack(0x70, m2.pid)); x.send(b'\\xc0\\0'); x.want(13)
    pub2(3); m3 = x.want(3, 1); print('third message', m3); return m3 is None
run(t)
'''
