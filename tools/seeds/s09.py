ID='packet-one-short'; PROP='C03'
NEEDS='a packet of 16 kB or more whose last byte arrives in a read of its own'
BREAKS='A packet whose remaining length takes three bytes is acted upon when its last byte is still missing.'
EDITS=[('mqttpacket.cpp','''        if (packet_length <= buf.usedBytes())
        {''','''        if (packet_length - (fixed_header_length & ~3u ? 1 : 0) <= buf.usedBytes())
        {''')]
DEMO='''
def t(sv):
    x = Client(sv.port); x.login('x'); x.send(subscribe(1, [('t', 0)])); x.want(9)
    a = Client(sv.port); a.login('a'); p = publish('t', b'z' * 20000); ok = True
    for cut in (1, 2, 3, 4, 5, 100, len(p) - 2, len(p) - 1):
        a.send(p[:cut]); time.sleep(0.15); a.send(p[cut:]); m = x.want(3, 2); ok = ok and m is not None and len(m.payload) == 20000
        if not ok: print('cut', cut); break
    return ok
run(t)
'''
