"""Native execution of the current tree: replay of counterexamples in crash-safe child processes."""
import ctypes, os, pickle, signal, struct, subprocess, sys, time, hashlib
import numpy as np
from . import build

def isolated(fn, timeout=60):
    """run fn() in a forked child -> ('ok', value) | ('crash', signo) | ('timeout', None) | ('error', text)"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 2)
            try: out = ('ok', fn())
            except BaseException as e: out = ('error', '%s: %s' % (type(e).__name__, e))
            b = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f: f.write(b)
        finally: os._exit(0)
    os.close(w)
    import select
    buf = b''; end = time.time() + timeout
    with os.fdopen(r, 'rb', buffering=0) as f:
        while True:
            left = end - time.time()
            if left <= 0:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); return ('timeout', None)
            if select.select([f], [], [], left)[0]:
                x = f.read(1 << 20)
                if not x: break
                buf += x
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st): return ('crash', os.WTERMSIG(st))
    if not buf: return ('error', 'no result')
    return pickle.loads(buf)

_libs = {}
def lib(impl, k, **kw):
    key = (impl, k) + tuple(sorted((a, repr(b)) for a, b in kw.items()))
    if key not in _libs: _libs[key] = ctypes.CDLL(build.native_lib(impl, k, **kw))
    return _libs[key]

class Buf:
    """aligned (or deliberately misaligned) native buffer with canaries on both sides"""
    PAD = 128
    def __init__(self, n, align=32, off=0):
        self.n = n
        self.raw = np.zeros(n + 2 * self.PAD + 64, dtype=np.uint8)
        a = self.raw.ctypes.data + self.PAD
        s = (-a) % 64 + off if align > 1 or off == 0 else (-a) % 64 + off
        self.lo = self.PAD + s
        self.v = self.raw[self.lo:self.lo + n]
        self.ptr = ctypes.c_void_p(self.raw.ctypes.data + self.lo)
        self.canary()
    def canary(self):
        self.raw[:self.lo] = 0xa5; self.raw[self.lo + self.n:] = 0xa5
    def intact(self):
        return bool((self.raw[:self.lo] == 0xa5).all() and (self.raw[self.lo + self.n:] == 0xa5).all())
    def set(self, b):
        self.v[:len(b)] = np.frombuffer(bytes(b), dtype=np.uint8)
    def get(self): return bytes(self.v.tobytes())

class Kem:
    """byte-level API of one variant"""
    def __init__(self, impl, k, **kw):
        from .spec import PAR
        from .harness import ns
        self.l = lib(impl, k, **kw); self.p = PAR[k]; self.n = ns(impl, k); self.impl = impl; self.k = k
        p = self.p
        self.b = {x: Buf(n) for x, n in dict(pk=p.pkb, sk=p.skb, ct=p.ctb, ss=32, d=64, m=32, isk=p.iskb, mm=32, coins=32).items()}
    def f(self, name):
        f = getattr(self.l, self.n + name); f.restype = ctypes.c_int; return f
    def keypair(self, coins):
        b = self.b; b['d'].set(coins)
        self.r = self.f('keypair_derand')(b['pk'].ptr, b['sk'].ptr, b['d'].ptr)
        return b['pk'].get(), b['sk'].get()
    def enc(self, pk, coins):
        b = self.b; b['pk'].set(pk); b['m'].set(coins)
        self.r = self.f('enc_derand')(b['ct'].ptr, b['ss'].ptr, b['pk'].ptr, b['m'].ptr)
        return b['ct'].get(), b['ss'].get()
    def dec(self, ct, sk):
        b = self.b; b['ct'].set(ct); b['sk'].set(sk)
        self.r = self.f('dec')(b['ss'].ptr, b['ct'].ptr, b['sk'].ptr)
        return b['ss'].get()
    def icpa_keypair(self, d):
        b = self.b; b['m'].set(d)
        self.f('indcpa_keypair_derand')(b['pk'].ptr, b['isk'].ptr, b['m'].ptr)
        return b['pk'].get(), b['isk'].get()
    def icpa_enc(self, m, pk, coins):
        b = self.b; b['m'].set(m); b['pk'].set(pk); b['coins'].set(coins)
        self.f('indcpa_enc')(b['ct'].ptr, b['m'].ptr, b['pk'].ptr, b['coins'].ptr)
        return b['ct'].get()
    def icpa_dec(self, ct, isk):
        b = self.b; b['ct'].set(ct); b['isk'].set(isk)
        self.f('indcpa_dec')(b['mm'].ptr, b['ct'].ptr, b['isk'].ptr)
        return b['mm'].get()
