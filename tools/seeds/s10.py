ID='maxpacket-header'; PROP='C19'
NEEDS='a publish whose size including the fixed header exceeds the client maximum by exactly the size of the fixed header or less'
BREAKS='For QoS messages the comparison with the maximum packet size the client announced leaves out the fixed header.'
EDITS=[('client.cpp','''    if (packetSize > write_buf_locked->maxOutgoingPacketSize)
    {''','''    const size_t packetHeaderSize = packet.packetType == PacketType::PUBLISH && packet.getQos() > 0 ? 2 : 0;
    if (packetSize - packetHeaderSize > write_buf_locked->maxOutgoingPacketSize)
    {''')]
DEMO='''
def t(sv):
    x = Client(sv.port); x.login('x', props=p4(39, 60)); x.send(subscribe(1, [('t', 1)])); x.want(9)
    a = Client(sv.port); a.login('a'); ok = True
    for n in range(40, 62):
        a.send(publish('t', b'y' * n, 1, n)); a.want(4); m = x.want(3, 0.3)
        if m: x.send(ack(0x40, m.pid)); size = 2 + len(m.raw); ok = ok and size <= 60; last = size
    print(last); return ok and last == 60
run(t)
'''
