ID='incoming-qos2-takeover'; PROP='C15'
NEEDS='a persistent session with an unreleased incoming QoS 2 publish whose connection is taken over by a new connection, which repeats the publish'
BREAKS='A resumed session forgets which QoS 2 identifiers are unreleased, so a repeated publish is passed on twice.'
EDITS=[('session.cpp','''    // Flow control is not part of the session state, so/but/and because we call this function every time a client connects, we reset it properly.
    qos_locked->resetFlowControlCounters(clientReceiveMax);
''','''    // Flow control is not part of the session state, so/but/and because we call this function every time a client connects, we reset it properly.
    qos_locked->resetFlowControlCounters(clientReceiveMax);

    // Nothing pending towards the client means there is no exchange to continue.
    if (qos_locked->getQueuedCount() == 0 && qos_locked->outgoingQoS2MessageIds.empty())
        qos_locked->incomingQoS2MessageIds.clear();
''')]
DEMO='''
def t(sv):
    x = Client(sv.port); x.login('x'); x.send(subscribe(1, [('t', 0)])); x.want(9)
    a = Client(sv.port); a.login('a', props=p4(17, 1000)); a.send(publish('t', 'once', 2, 9)); a.want(5); a.close()
    a = Client(sv.port); c = a.login('a', clean=False, props=p4(17, 1000)); a.send(publish('t', 'once', 2, 9, dup=True)); a.want(5); a.send(ack(0x62, 9)); a.want(7)
    r = [m for m in (x.want(3, 1), x.want(3, 1)) if m]; print(len(r)); return len(r) == 1
run(t)
'''
