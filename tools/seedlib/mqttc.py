# A small MQTT 3.1.1/5 client and a runner for the server built in /repo, for demonstrations.
import os, socket, struct, subprocess, tempfile, time, shutil, sys
def vi(n):
    o = b''
    while True:
        b = n % 128; n //= 128
        o += bytes([b | (128 if n else 0)])
        if not n: return o
def s(x): x = x.encode() if isinstance(x, str) else x; return struct.pack('>H', len(x)) + x
def pkt(first, body): return bytes([first]) + vi(len(body)) + body
def connect(cid, ver=5, clean=True, keep=0, user=None, pw=None, will=None, props=b''):
    fl = (2 if clean else 0); b = b''
    if will: fl |= 4 | (will.get('qos', 0) << 3) | (32 if will.get('retain') else 0)
    if user is not None: fl |= 128
    if pw is not None: fl |= 64
    b = s('MQTT') + bytes([ver, fl]) + struct.pack('>H', keep)
    if ver == 5: b += vi(len(props)) + props
    b += s(cid)
    if will:
        wp = will.get('props', b'')
        if ver == 5: b += vi(len(wp)) + wp
        b += s(will['topic']) + s(will['payload'])
    if user is not None: b += s(user)
    if pw is not None: b += s(pw)
    return pkt(0x10, b)
def publish(topic, payload=b'', qos=0, pid=0, retain=False, dup=False, ver=5, props=b''):
    payload = payload.encode() if isinstance(payload, str) else payload
    b = s(topic) + (struct.pack('>H', pid) if qos else b'')
    if ver == 5: b += vi(len(props)) + props
    return pkt(0x30 | (qos << 1) | (1 if retain else 0) | (8 if dup else 0), b + payload)
def subscribe(pid, filters, ver=5, props=b''):
    b = struct.pack('>H', pid)
    if ver == 5: b += vi(len(props)) + props
    for f, o in filters: b += s(f) + bytes([o])
    return pkt(0x82, b)
def unsubscribe(pid, filters, ver=5):
    b = struct.pack('>H', pid)
    if ver == 5: b += b'\0'
    for f in filters: b += s(f)
    return pkt(0xA2, b)
def ack(first, pid): return pkt(first, struct.pack('>H', pid))
def disconnect(ver=5, rc=0, props=b''):
    if ver != 5 or (rc == 0 and not props): return pkt(0xE0, b'')
    return pkt(0xE0, bytes([rc]) + vi(len(props)) + props)
def p4(i, v): return bytes([i]) + struct.pack('>I', v)
def p2(i, v): return bytes([i]) + struct.pack('>H', v)
def ps(i, v): return bytes([i]) + s(v)
PT = {1: 1, 2: 4, 3: 's', 8: 's', 9: 's', 11: 'v', 17: 4, 18: 's', 19: 2, 21: 's', 22: 's', 23: 1, 24: 4, 25: 1, 26: 's', 28: 's', 31: 's', 33: 2, 34: 2, 35: 2, 36: 1, 37: 1, 38: 'ss', 39: 4, 40: 1, 41: 1, 42: 1}
class P: pass
def rvi(b, i):
    v = 0; m = 1
    while True:
        x = b[i]; i += 1; v += (x & 127) * m; m *= 128
        if not x & 128: return v, i
def rstr(b, i): n = struct.unpack('>H', b[i:i+2])[0]; return b[i+2:i+2+n], i + 2 + n
def rprops(b, i):
    n, i = rvi(b, i); e = i + n; r = []
    while i < e:
        k = b[i]; i += 1; t = PT[k]
        if t == 's': v, i = rstr(b, i)
        elif t == 'ss': a, i = rstr(b, i); c, i = rstr(b, i); v = (a, c)
        elif t == 'v': v, i = rvi(b, i)
        else: v = int.from_bytes(b[i:i+t], 'big'); i += t
        r.append((k, v))
    return r, i
def decode(first, b, ver):
    p = P(); p.first = first; p.type = first >> 4; p.raw = b; p.props = []; p.pid = 0; p.rc = 0
    if p.type == 3:
        p.qos = (first >> 1) & 3; p.retain = bool(first & 1); p.dup = bool(first & 8)
        t, i = rstr(b, 0); p.topic = t.decode()
        if p.qos: p.pid = struct.unpack('>H', b[i:i+2])[0]; i += 2
        if ver == 5: p.props, i = rprops(b, i)
        p.payload = b[i:]
    elif p.type == 2: p.present = bool(b[0] & 1); p.rc = b[1]; p.props = rprops(b, 2)[0] if ver == 5 else []
    elif p.type in (4, 5, 6, 7): p.pid = struct.unpack('>H', b[:2])[0]; p.rc = b[2] if len(b) > 2 else 0
    elif p.type in (9, 11):
        p.pid = struct.unpack('>H', b[:2])[0]; i = 2
        if ver == 5: p.props, i = rprops(b, 2)
        p.codes = list(b[i:])
    elif p.type == 14: p.rc = b[0] if b else 0
    return p
class Client:
    def __init__(self, port, ver=5): self.ver = ver; self.port = port; self.k = socket.create_connection(('127.0.0.1', port)); self.k.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1); self.buf = b''; self.closed = False
    def send(self, b):
        try: self.k.sendall(b)
        except OSError: self.closed = True
    def read(self, secs=0.4):
        "all packets that arrive within the time (returns early after a quiet spell)"
        out = []; end = time.monotonic() + secs
        while not self.closed and time.monotonic() < end:
            self.k.settimeout(max(0.01, end - time.monotonic()))
            try: d = self.k.recv(65536)
            except socket.timeout: break
            except OSError: self.closed = True; break
            if not d: self.closed = True
            self.buf += d
        while True:
            if len(self.buf) < 2: break
            n = 0; i = 1; ok = False; m = 1
            while i < len(self.buf):
                n += (self.buf[i] & 127) * m; m *= 128; i += 1
                if not self.buf[i-1] & 128: ok = True; break
            if not ok or len(self.buf) < i + n: break
            out.append(decode(self.buf[0], self.buf[i:i+n], self.ver)); self.buf = self.buf[i+n:]
        return out
    def want(self, typ, secs=5):
        "wait for one packet of the type, return it; None when it does not come; other packets are kept in .seen"
        end = time.monotonic() + secs; self.seen = getattr(self, 'seen', [])
        while time.monotonic() < end:
            for i, q in enumerate(self.seen):
                if q.type == typ: return self.seen.pop(i)
            if self.closed and not self.buf: return None
            self.seen += self.read(0.05)
        return None
    def login(self, cid, **kw): self.send(connect(cid, ver=self.ver, **kw)); return self.want(2)
    def close(self): self.k.close(); self.closed = True; time.sleep(0.1)
class Server:
    def __init__(self, conf='', files=None, exe='_build/flashmq/flashmq', listen=''):
        self.dir = tempfile.mkdtemp(prefix='fmqdemo'); self.exe = os.path.abspath(exe); self.port = self.free()
        for n, c in (files or {}).items(): open(os.path.join(self.dir, n), 'wb').write(c if isinstance(c, bytes) else c.encode())
        open(self.dir + '/flashmq.conf', 'w').write('thread_count 1\nlog_file %s/log\nallow_anonymous true\n%s\nlisten {\n protocol mqtt\n inet_protocol ip4\n inet4_bind_address 127.0.0.1\n port %d\n%s}\n' % (self.dir, conf.replace('@DIR@', self.dir), self.port, listen)); self.start()
    def free(self): k = socket.socket(); k.bind(('127.0.0.1', 0)); p = k.getsockname()[1]; k.close(); return p
    def start(self):
        self.p = subprocess.Popen([self.exe, '--config-file', self.dir + '/flashmq.conf'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        for _ in range(200):
            try: socket.create_connection(('127.0.0.1', self.port)).close(); return
            except OSError: time.sleep(0.05)
            if self.p.poll() is not None: raise SystemExit('server did not start: ' + open(self.dir + '/log').read())
    def stop(self):
        if self.p.poll() is None: self.p.terminate()
        try: self.p.wait(20)
        except subprocess.TimeoutExpired: self.p.kill(); self.p.wait()
    def done(self): self.stop(); shutil.rmtree(self.dir, ignore_errors=True)
def run(test, *a, **kw):
    srv = Server(*a, **kw)
    try: ok = test(srv)
    finally: srv.done()
    print('ok' if ok else 'FAILED'); sys.exit(0 if ok else 1)
