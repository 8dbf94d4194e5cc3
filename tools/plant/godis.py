"""Starts the server built from the current directory and talks RESP to it."""
import os, shutil, signal, socket, subprocess, sys, tempfile, time

def env():
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', CGO_ENABLED='0')
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    return e

class Tmp:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='godis-demo-')
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

def build(d, *flags):
    out = os.path.join(d, 'godis')
    subprocess.run(['go', 'build', *flags, '-o', out, './cmd/server'], check=True, env=env())
    return out

def port():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close()
    return p

class Server:
    def __init__(self, exe, **kw):
        self.port = port()
        self.p = subprocess.Popen([exe, '-addr', 'tcp://127.0.0.1:%d' % self.port],
                                  stdout=subprocess.DEVNULL, stderr=kw.get('stderr', subprocess.DEVNULL), env=dict(env(), **kw.get('env', {})))
        for _ in range(200):
            try:
                socket.create_connection(('127.0.0.1', self.port), 1).close()
                return
            except OSError:
                time.sleep(0.05)
        raise SystemExit('server does not listen')
    def client(self):
        return Client(self.port)
    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
    def __enter__(self): return self
    def __exit__(self, *a): self.stop()

class Err(str): pass

class Client:
    def __init__(self, port):
        self.s = socket.create_connection(('127.0.0.1', port), 20)
        self.s.settimeout(20)
        self.f = self.s.makefile('rb')
    def send(self, *a):
        a = [x if isinstance(x, bytes) else str(x).encode() for x in a]
        self.s.sendall(b'*%d\r\n' % len(a) + b''.join(b'$%d\r\n%s\r\n' % (len(x), x) for x in a))
    def recv(self):
        l = self.f.readline()
        if not l: raise EOFError
        t, v = l[:1], l[1:-2]
        if t == b'+': return v.decode()
        if t == b'-': return Err(v.decode())
        if t == b':': return int(v)
        if t == b'$':
            n = int(v)
            if n < 0: return None
            b = self.f.read(n + 2)
            return b[:-2].decode('latin1')
        if t == b'*':
            return [self.recv() for _ in range(int(v))]
        raise ValueError(l)
    def __call__(self, *a):
        self.send(*a)
        return self.recv()

def check(got, want, what):
    if got != want:
        print('FAIL %s: got %r, want %r' % (what, got, want)); sys.exit(1)
