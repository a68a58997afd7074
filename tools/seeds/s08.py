ID='cirbuf-grow-wrapped'; PROP='C02'
NEEDS='a ring buffer that has to grow by a factor of four or more while its contents are wrapped around'
BREAKS='When a wrapped buffer grows by more than a factor of two, the wrapped part is not moved behind the first part.'
EDITS=[('cirbuf.cpp','''    if (head < tail)
    {
        std::memcpy''','''    if (head < tail && (factor == 2 || maxRead < head))
    {
        std::memcpy''')]
DEMO='''
# clients do not read until their buffers are full, then a large message makes those grow
def t(sv):
    import socket
    xs = []
    for i in range(8):
        x = Client.__new__(Client); x.ver = 5; x.buf = b''; x.closed = False; x.k = socket.socket(); x.k.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096); x.k.connect(('127.0.0.1', sv.port)); x.login('x' + 'y' * (37 * i)); x.send(subscribe(1, [('t', 0), ('p%d' % i, 0)])); x.want(9); xs.append(x)
    a = Client(sv.port); a.login('a'); n = 0
    for rnd in range(3000):
        a.send(b''.join(publish('t', b'%08d' % (n + i) + b'.' * 92) for i in range(33)) + b'\\xc0\\0'); n += 33; a.k.settimeout(5); a.k.recv(2)
        if rnd == 20:
            for i in range(8): a.send(publish('p%d' % i, b'%08d' % n + b'.' * (400 * i)))
    a.send(b'\\xc0\\0'); a.want(13, 20); a.send(publish('t', b'%08d' % n + b'+' * 30000)); a.send(b'\\xc0\\0'); a.want(13, 20); ok = True
    for x in xs:
        last = -1; big = False; count = 0; end = time.monotonic() + 25
        while time.monotonic() < end and not big and not x.closed and ok:
            for m in x.read(0.3):
                if m.type != 3: ok = False; continue
                if m.topic != 't': continue
                v = int(m.payload[:8]); count += 1; big = v == n
                if v < last or m.payload[8:].strip(b'+' if big else b'.') or len(m.payload) != (30008 if big else 100): ok = False
                last = v
        print(count, big, ok, x.closed); ok = ok and big and count < n
    return ok
try: run(t, 'client_max_write_buffer_size 4096\\nclient_initial_buffer_size 1024')
except Exception as e: print('damaged stream', e); sys.exit(1)
'''
