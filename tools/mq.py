# Minimal MQTT client and broker runner for the demonstrations. Everything is kept in a temporary directory.
import os, socket, struct, subprocess, sys, tempfile, time, shutil, atexit, signal, select
def vbi(n):
    o = b''
    while True:
        d = n % 128; n //= 128
        o += bytes([d | 128 if n else d])
        if not n: return o
def s16(b):
    b = b.encode() if isinstance(b, str) else b
    return struct.pack('>H', len(b)) + b
class Broker:
    def __init__(self, conf='', port=None, d=None, listen='', wait=True):
        self.d = d or tempfile.mkdtemp(prefix='fmqdemo'); atexit.register(self.cleanup)
        if port is None:
            s = socket.socket(); s.bind(('127.0.0.1', 0)); port = s.getsockname()[1]; s.close()
        self.port = port; os.makedirs(self.d + '/db', exist_ok=True)
        self.conf = conf; self.listen = listen; self.p = None; self.write(); self.start(wait)
    def write(self):
        with open(self.d + '/flashmq.conf', 'w') as f:
            f.write('storage_dir %s/db\nlog_file %s/log\nallow_anonymous true\nrlimit_nofile 1000\n%s\nlisten {\nprotocol mqtt\ninet_protocol ip4\ninet4_bind_address 127.0.0.1\nport %d\n%s}\n' % (self.d, self.d, self.conf.replace('@DIR@', self.d), self.port, self.listen))
    def start(self, wait=True):
        self.p = subprocess.Popen([os.path.join(os.getcwd(), '_build/flashmq/flashmq'), '--config-file', self.d + '/flashmq.conf'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if not wait: return
        for _ in range(300):
            try: socket.create_connection(('127.0.0.1', self.port), 1).close(); return
            except OSError: time.sleep(0.05)
            if self.p.poll() is not None: break
        print(self.log()[-2000:]); print('broker does not start'); sys.exit(2)
    def log(self):
        try: return open(self.d + '/log', errors='replace').read()
        except OSError: return ''
    def stop(self, sig=signal.SIGTERM, t=90):
        if self.p and self.p.poll() is None:
            self.p.send_signal(sig)
            try: self.p.wait(t)
            except subprocess.TimeoutExpired: self.p.kill(); self.p.wait(); return None
        return self.p.returncode if self.p else None
    def cleanup(self):
        if self.p and self.p.poll() is None: self.p.kill(); self.p.wait()
        shutil.rmtree(self.d, ignore_errors=True)
class Pk:
    def __init__(self, t, fl, b, ver):
        self.type = t; self.flags = fl; self.body = b; self.props = {}; self.raw_props = []
        if t == 3:
            n = struct.unpack('>H', b[:2])[0]; self.topic = b[2:2 + n].decode(errors='replace'); p = 2 + n
            self.qos = (fl >> 1) & 3; self.retain = fl & 1; self.dup = fl >> 3 & 1; self.pid = 0
            if self.qos: self.pid = struct.unpack('>H', b[p:p + 2])[0]; p += 2
            if ver == 5: p = self.rp(b, p)
            self.payload = b[p:]
        elif t == 2:
            self.sp = b[0]; self.rc = b[1]
            if ver == 5: self.rp(b, 2)
        elif t in (4, 5, 6, 7): self.pid = struct.unpack('>H', b[:2])[0]; self.rc = b[2] if len(b) > 2 else 0
        elif t in (9, 11):
            self.pid = struct.unpack('>H', b[:2])[0]; p = 2
            if ver == 5: p = self.rp(b, 2)
            self.codes = list(b[p:])
        elif t == 14: self.rc = b[0] if b else 0
    def rp(self, b, p):
        n = 0; sh = 0
        while True:
            c = b[p]; p += 1; n |= (c & 127) << sh; sh += 7
            if c < 128: break
        e = p + n
        while p < e:
            i = b[p]; p += 1
            if i in (1, 23, 25, 36, 37, 40, 41, 42): v = b[p]; p += 1
            elif i in (19, 33, 34, 35): v = struct.unpack('>H', b[p:p + 2])[0]; p += 2
            elif i in (2, 17, 24, 39): v = struct.unpack('>I', b[p:p + 4])[0]; p += 4
            elif i == 11:
                v = 0; sh = 0
                while True:
                    c = b[p]; p += 1; v |= (c & 127) << sh; sh += 7
                    if c < 128: break
            elif i == 38:
                n1 = struct.unpack('>H', b[p:p + 2])[0]; a = b[p + 2:p + 2 + n1]; p += 2 + n1
                n1 = struct.unpack('>H', b[p:p + 2])[0]; v = (a, b[p + 2:p + 2 + n1]); p += 2 + n1
            else: n1 = struct.unpack('>H', b[p:p + 2])[0]; v = b[p + 2:p + 2 + n1]; p += 2 + n1
            self.raw_props.append((i, v)); self.props[i] = v
        return e
P1 = lambda i, v: bytes([i, v])
P2 = lambda i, v: bytes([i]) + struct.pack('>H', v)
P4 = lambda i, v: bytes([i]) + struct.pack('>I', v)
PS = lambda i, v: bytes([i]) + s16(v)
class C:
    def __init__(self, br, cid, ver=5, clean=1, props=b'', will=None, user=None, pw=None, ka=60, auto=True, connect=True, sock=None):
        self.s = sock or socket.create_connection(('127.0.0.1', br if isinstance(br, int) else br.port), 10); self.ver = ver; self.buf = b''; self.q = []; self.auto = auto; self.pid = 0; self.eof = False; self.cid = cid
        self.got = []
        if not connect: return
        self.send_connect(clean, props, will, user, pw, ka); self.ca = self.want(2)
    def send_connect(self, clean=1, props=b'', will=None, user=None, pw=None, ka=60):
        fl = 2 if clean else 0; body = b''
        if will: fl |= 4 | will.get('qos', 0) << 3 | (32 if will.get('retain') else 0)
        if user is not None: fl |= 128
        if pw is not None: fl |= 64
        v = (s16('MQIsdp') + b'\x03') if self.ver == 3 else s16('MQTT') + bytes([self.ver])
        body = v + bytes([fl]) + struct.pack('>H', ka)
        if self.ver == 5: body += vbi(len(props)) + props
        body += s16(self.cid)
        if will:
            if self.ver == 5: wp = will.get('props', b''); body += vbi(len(wp)) + wp
            body += s16(will['topic']) + s16(will['payload'])
        if user is not None: body += s16(user)
        if pw is not None: body += s16(pw)
        self.send(0x10, body)
    def send(self, h, body=b''): self.s.sendall(bytes([h]) + vbi(len(body)) + body)
    def nid(self): self.pid += 1; return self.pid
    def fill(self, t):
        r, _, _ = select.select([self.s], [], [], max(0, t))
        if not r: return False
        try: d = self.s.recv(1 << 16)
        except OSError: d = b''
        if not d: self.eof = True; return False
        self.buf += d; return True
    def parse(self):
        b = self.buf
        if len(b) < 2: return None
        n = 0; sh = 0; p = 1
        while True:
            if p >= len(b): return None
            c = b[p]; p += 1; n |= (c & 127) << sh; sh += 7
            if c < 128: break
        if len(b) < p + n: return None
        k = Pk(b[0] >> 4, b[0] & 15, b[p:p + n], self.ver); self.buf = b[p + n:]
        if k.type == 3 and self.auto:
            if k.qos == 1: self.send(0x40, struct.pack('>H', k.pid))
            if k.qos == 2: self.send(0x50, struct.pack('>H', k.pid))
        if k.type == 6 and self.auto: self.send(0x70, struct.pack('>H', k.pid))
        return k
    def next(self, t=5):
        end = time.time() + t
        while True:
            k = self.parse()
            if k: return k
            if self.eof or time.time() > end: return None
            self.fill(min(end - time.time(), t))
    def want(self, typ, t=10):
        end = time.time() + t
        while time.time() < end and not self.eof or self.buf:
            k = self.next(max(0.01, end - time.time()))
            if not k: break
            if k.type == typ: return k
            if k.type == 3: self.got.append(k)
            self.q.append(k)
        return None
    def msgs(self, t=0.5, n=None):
        # publishes received so far plus those that arrive in t seconds (or until n)
        end = time.time() + t
        while time.time() < end and (n is None or len(self.got) < n):
            k = self.next(max(0.01, end - time.time()))
            if not k: break
            if k.type == 3: self.got.append(k)
        g = self.got; self.got = []; return g
    def sub(self, *f, props=b'', wait=True):
        i = self.nid(); body = struct.pack('>H', i) + ((vbi(len(props)) + props) if self.ver == 5 else b'')
        for t, o in f: body += s16(t) + bytes([o])
        self.send(0x82, body)
        if wait: return self.want(9)
    def unsub(self, *f):
        i = self.nid(); body = struct.pack('>H', i) + (b'\0' if self.ver == 5 else b'')
        for t in f: body += s16(t)
        self.send(0xa2, body); return self.want(11)
    def pub(self, topic, payload, qos=0, retain=0, props=b'', dup=0, pid=None, wait=True):
        body = s16(topic)
        if qos: pid = pid or self.nid(); body += struct.pack('>H', pid)
        if self.ver == 5: body += vbi(len(props)) + props
        body += payload.encode() if isinstance(payload, str) else payload
        self.send(0x30 | qos << 1 | retain | dup << 3, body)
        if not wait or not qos: return pid
        if qos == 1: return self.want(4)
        k = self.want(5)
        if k and k.rc < 128: self.send(0x62, struct.pack('>H', k.pid)); return self.want(7)
        return k
    def ping(self, t=10): self.send(0xc0); return self.want(13, t)
    def disc(self, rc=None, props=None):
        if rc is None: self.send(0xe0)
        elif props is None: self.send(0xe0, bytes([rc]))
        else: self.send(0xe0, bytes([rc]) + vbi(len(props)) + props)
        time.sleep(0.05); self.s.close()
    def drop(self, rst=False):
        if rst: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        self.s.close()
def check(ok, text):
    print(('ok   ' if ok else 'FAIL ') + text); sys.stdout.flush()
    if not ok: sys.exit(1)
