"""Search for, and replay of, counterexamples at the byte level of the KEM and public-key-encryption entry points.

Inputs come from solver models (assigns), from linear systems over GF(q) that drive decryption or encryption to chosen
ring values, and from structured families (bit flips, extreme fields, sweeps).  Every reported input has been run through
the natively compiled current tree and contradicts the oracle.
"""
import hashlib, os, random, time, ctypes
import numpy as np
from . import spec, native, build, runner
from .harness import ns
Q = 3329

OPS = {'kp': ('d64',), 'enc': ('pk', 'm'), 'dec': ('ct', 'sk'), 'ikp': ('d',), 'ienc': ('m', 'pk', 'coins'), 'idec': ('ct', 'isk')}

def run_op(K, op, x):
    if op == 'kp':
        pk, sk = K.keypair(x['d64']); return dict(pk=pk, sk=sk, ret=K.r)
    if op == 'enc':
        ct, ss = K.enc(x['pk'], x['m']); return dict(ct=ct, ss=ss, ret=K.r)
    if op == 'dec': return dict(ss=K.dec(x['ct'], x['sk']), ret=K.r)
    if op == 'ikp':
        pk, isk = K.icpa_keypair(x['d']); return dict(pk=pk, isk=isk)
    if op == 'ienc': return dict(ct=K.icpa_enc(x['m'], x['pk'], x['coins']))
    return dict(m=K.icpa_dec(x['ct'], x['isk']))

def oracle(k, op, x):
    if op == 'kp':
        pk, sk = spec.keypair(k, x['d64']); return dict(pk=bytes(pk), sk=bytes(sk), ret=0)
    if op == 'enc':
        ct, ss = spec.enc(k, x['pk'], x['m']); return dict(ct=bytes(ct), ss=bytes(ss), ret=0)
    if op == 'dec': return dict(ss=bytes(spec.dec(k, x['ct'], x['sk'])), ret=0)
    if op == 'ikp':
        pk, sk = spec.indcpa_keypair(k, x['d']); return dict(pk=bytes(pk), isk=bytes(sk))
    if op == 'ienc': return dict(ct=bytes(spec.indcpa_enc(k, list(x['m']), list(x['pk']), x['coins'])))
    return dict(m=bytes(spec.indcpa_dec(k, list(x['ct']), list(x['isk']))))

def own_oracle(K, op, x):
    """expected KEM result in terms of the same library's public-key encryption"""
    p = K.p
    if op == 'kp':
        pk, isk = K.icpa_keypair(x['d64'][:32])
        return dict(pk=pk, sk=isk + pk + hashlib.sha3_256(pk).digest() + x['d64'][32:], ret=0)
    if op == 'enc':
        g = hashlib.sha3_512(x['m'] + hashlib.sha3_256(x['pk']).digest()).digest()
        return dict(ct=K.icpa_enc(x['m'], x['pk'], g[32:]), ss=g[:32], ret=0)
    sk = x['sk']; isk = sk[:p.pvb]; pk = sk[p.pvb:p.pvb + p.pkb]; h = sk[p.pvb + p.pkb:-32]; z = sk[-32:]
    m = K.icpa_dec(x['ct'], isk)
    g = hashlib.sha3_512(m + h).digest()
    c2 = K.icpa_enc(m, pk, g[32:])
    return dict(ss=g[:32] if c2 == x['ct'] else hashlib.shake_256(z + x['ct']).digest(32), ret=0)

# ------------------------------------------------------------------ ring helpers (numpy)
_nm = {}
def mats():
    if not _nm:
        _nm['N'] = np.array(spec.ntt_matrix(), dtype=np.int64); _nm['I'] = np.array(spec.invntt_matrix(), dtype=np.int64)
        _nm['G'] = np.array(spec.GAMMA, dtype=np.int64)
    return _nm
def ntt(v): return mats()['N'] @ (np.asarray(v) % Q) % Q
def invntt(v): return mats()['I'] @ (np.asarray(v) % Q) % Q
def bmul(a, b):
    G = mats()['G']; a = np.asarray(a); b = np.asarray(b); r = np.empty(256, dtype=np.int64)
    r[0::2] = (a[0::2] * b[0::2] + a[1::2] * b[1::2] % Q * G) % Q
    r[1::2] = (a[0::2] * b[1::2] + a[1::2] * b[0::2]) % Q
    return r
_inv = np.array([0] + [pow(i, -1, Q) for i in range(1, Q)], dtype=np.int64)
def bsolve(w, a, rnd=None):
    """x with bmul(x, a) = w where possible"""
    G = mats()['G']; a0, a1 = a[0::2], a[1::2]; w0, w1 = w[0::2], w[1::2]
    det = (a0 * a0 - a1 * a1 % Q * G) % Q
    di = _inv[det]
    x = np.empty(256, dtype=np.int64)
    x[0::2] = (w0 * a0 - w1 * a1 % Q * G) % Q * di % Q
    x[1::2] = (w1 * a0 - w0 * a1) % Q * di % Q
    return x

def spread(v, rnd):
    """a 12-bit field with residue v (sometimes the non-canonical one)"""
    v = np.asarray(v) % Q
    up = (v < 4096 - Q) & (rnd.random(v.shape) < 0.3)
    return np.where(up, v + Q, v)

def pk_for_v(k, target, coins, rho, rnd, canonical=False):
    """public key such that the t*r part of v equals target for the given coins"""
    p = spec.PAR[k]
    r = [np.array(ntt(spec.cbd(spec.h_shake256(coins + bytes([i]), 64 * p.eta1), p.eta1))) for i in range(k)]
    w = ntt(target)
    t = [None] + [rnd.integers(0, Q, 256) for _ in range(k - 1)]
    for j in range(1, k): w = (w - bmul(t[j], r[j])) % Q
    t[0] = bsolve(w, r[0])
    if not canonical: t = [spread(x, rnd) for x in t]
    return b''.join(bytes(spec.pack([int(y) for y in x], 12)) for x in t) + rho

def isk_for_w(k, target, ct, rnd, domain='w', canonical=False):
    p = spec.PAR[k]
    u = [np.array(ntt([spec.decompress(y, p.du) for y in spec.unpack(ct[32 * p.du * i:32 * p.du * (i + 1)], p.du)])) for i in range(k)]
    w = ntt(target) if domain == 'w' else np.asarray(target) % Q
    s = [None] + [rnd.integers(0, Q, 256) for _ in range(k - 1)]
    for j in range(1, k): w = (w - bmul(s[j], u[j])) % Q
    s[0] = bsolve(w, u[0])
    if not canonical: s = [spread(x, rnd) for x in s]
    return b''.join(bytes(spec.pack([int(y) for y in x], 12)) for x in s)

# ------------------------------------------------------------------ input families
def fields(rnd, n, d):
    """n d-bit fields from an extreme family"""
    k = rnd.integers(0, 9); m = (1 << d) - 1
    ext = [0, 1, m, m - 1, m >> 1, (m >> 1) + 1] + ([Q, Q - 1, Q + 1, 1664, 1665, 832, 833, 2496, 2497] if d == 12 else [])
    if k == 0: return np.full(n, rnd.choice(ext))
    if k == 1: return rnd.choice(ext, n)
    if k == 2: return rnd.integers(0, m + 1, n)
    if k == 3: return np.where(rnd.random(n) < 0.05, rnd.integers(0, m + 1, n), rnd.choice(ext))
    if k == 4:
        p = 1 << rnd.integers(0, 9); return np.where((np.arange(n) // p) % 2 == 0, rnd.choice(ext), rnd.choice(ext))
    if k == 5: return (np.arange(n) + rnd.integers(0, m + 1)) & m
    if k == 6: return np.full(n, rnd.integers(0, m + 1))
    if k == 7: return m - rnd.integers(0, 4, n)
    x = np.zeros(n, dtype=np.int64); x[rnd.integers(0, n)] = rnd.integers(0, m + 1); return x

def packf(v, d): return bytes(spec.pack([int(x) for x in v], d))
def rct(k, rnd):
    p = spec.PAR[k]
    return b''.join(packf(fields(rnd, 256, p.du), p.du) for _ in range(k)) + packf(fields(rnd, 256, p.dv), p.dv)
def rpv(k, rnd): return b''.join(packf(fields(rnd, 256, 12), 12) for _ in range(k))
def rb(rnd, n):
    k = rnd.integers(0, 6)
    if k == 0: return bytes([int(rnd.choice([0, 255, 128, 1]))]) * n
    if k == 1:
        b = bytearray(n); b[int(rnd.integers(0, n))] = int(rnd.integers(0, 256)); return bytes(b)
    return rnd.bytes(n)

def gen(K, k, op, rnd, assigns, targets):
    """yields (tag, inputs)"""
    p = spec.PAR[k]
    for a in assigns:
        x = {}
        for nm in OPS[op]:
            n = dict(d64=64, pk=p.pkb, m=32, ct=p.ctb, sk=p.skb, d=32, coins=32, isk=p.iskb)[nm]
            v = a.get(nm)
            x[nm] = (bytes(v) + rnd.bytes(n))[:n] if v is not None else rnd.bytes(n)
        yield 'solver', x
    if op in ('kp', 'ikp'):
        n = 64 if op == 'kp' else 32; nm = OPS[op][0]
        while True: yield 'bytes', {nm: rb(rnd, n)}
    if op in ('enc', 'ienc'):
        i = 0
        tl = list(targets)
        while True:
            m = rb(rnd, 32); coins = rb(rnd, 32) if op == 'ienc' else None
            c = i % 6; i += 1
            if c == 0: pk = K.keypair(rnd.bytes(64))[0]
            elif c == 1: pk = rb(rnd, p.pkb)
            elif c < 4: pk = rpv(k, rnd) + rnd.bytes(32)
            else:
                rho = rnd.bytes(32)
                tg = tl.pop(0) if tl else fields(rnd, 256, 12) % Q
                if op == 'ienc': pk = pk_for_v(k, tg, coins, rho, rnd)
                else: pk = rpv(k, rnd) + rho
            yield ('pk%d' % c), (dict(pk=pk, m=m) if op == 'enc' else dict(pk=pk, m=m, coins=coins))
    if op == 'idec':
        i = 0; tl = list(targets)
        while True:
            c = i % 7; i += 1
            if c == 0:
                pk, isk = K.icpa_keypair(rnd.bytes(32)); ct = K.icpa_enc(rnd.bytes(32), pk, rnd.bytes(32))
            elif c == 1: isk = rb(rnd, p.iskb); ct = rb(rnd, p.ctb)
            elif c < 4: isk = rpv(k, rnd); ct = rct(k, rnd)
            else:
                ct = rct(k, rnd) if c == 4 else rnd.bytes(p.ctb)
                tg = tl.pop(0) if tl else (fields(rnd, 256, 12) % Q if c < 6 else (np.arange(256) * 13 + rnd.integers(0, Q)) % Q)
                dom = 'w'
                if type(tg) is tuple: dom, tg = tg
                isk = isk_for_w(k, tg, ct, rnd, dom)
            yield ('dec%d' % c), dict(ct=ct, isk=isk)
    if op == 'dec':
        pk, sk = K.keypair(rnd.bytes(64))
        ct, ss = K.enc(pk, rnd.bytes(32))
        yield 'honest', dict(ct=ct, sk=sk)
        for n in range(8 * p.ctb):
            b = bytearray(ct); b[n >> 3] ^= 1 << (n & 7); yield 'ct bit', dict(ct=bytes(b), sk=sk)
        for n in range(p.skb):
            b = bytearray(sk); b[n] ^= 1 << int(rnd.integers(0, 8)); yield 'sk byte', dict(ct=ct, sk=bytes(b))
        for n in range(p.ctb - 1):
            b = bytearray(ct); v = 1 << int(rnd.integers(0, 8)); b[n] ^= v; b[n + 1] ^= v; yield 'ct pair', dict(ct=bytes(b), sk=sk)
        vl = [p.uvb * 8 + p.dv * i for i in range(256)]              # lowest bit of every v field: decryption survives these
        i = 0
        while True:
            c = i % 8; i += 1
            if c == 0:
                pk, sk = K.keypair(rnd.bytes(64)); m = rb(rnd, 32); ct, ss = K.enc(pk, m); yield 'honest', dict(ct=ct, sk=sk); continue
            b = bytearray(ct)
            if c in (1, 2):
                for n in rnd.choice(vl, int(rnd.integers(1, 256)), replace=False): b[n >> 3] ^= 1 << (n & 7)
                yield 'v low bits', dict(ct=bytes(b), sk=sk)
            elif c == 3:
                s = int(rnd.choice([1, 2, 4, 8, 16, 32, 64, 128])); n = int(rnd.integers(0, p.ctb)); v = int(rnd.integers(1, 256))
                for j in range(int(rnd.integers(2, 5))): b[(n + j * s) % p.ctb] ^= v
                yield 'ct stride', dict(ct=bytes(b), sk=sk)
            elif c == 4: yield 'zeros', dict(ct=bytes([int(rnd.choice([0, 255]))]) * p.ctb, sk=sk)
            elif c == 5: yield 'malformed', dict(ct=rct(k, rnd), sk=rpv(k, rnd) + rpv(k, rnd) + rnd.bytes(32) + rb(rnd, 64))
            elif c == 6:
                h2 = rnd.bytes(32); z = rb(rnd, 32); m = rb(rnd, 32)
                g = hashlib.sha3_512(m + h2).digest(); c2 = K.icpa_enc(m, pk, g[32:])
                yield 'other hash', dict(ct=c2, sk=sk[:-64] + h2 + z)
            else:
                # malformed public key with non-canonical fields, consistent secret key
                t = np.array(spec.unpack(pk[:p.pvb], 12, 256 * k)); t = np.where((t < 4096 - Q) & (rnd.random(256 * k) < 0.5), t + Q, t)
                pk2 = b''.join(packf(t[256 * j:256 * j + 256], 12) for j in range(k)) + pk[p.pvb:]
                m = rnd.bytes(32); ct2, _ = K.enc(pk2, m)
                yield 'non-canonical', dict(ct=ct2, sk=sk[:p.pvb] + pk2 + hashlib.sha3_256(pk2).digest() + sk[-32:])

def fo_assign(K, models, rnd):
    """turn solver models of the decapsulation harness into inputs: the model's message, rejection secret and hash field with a
    ciphertext whose difference from the honest one is the model's ct xor cmp, restricted to bits decryption tolerates"""
    p = K.p; out = []
    for mo in models:
        for t in range(4):
            pk, sk = K.keypair(rnd.bytes(64))
            sk = bytearray(sk)
            for i, v in mo.get('sk', {}).items():
                if p.pvb <= i: sk[i] = v
            m = bytes(mo['m']) if mo.get('m') else rnd.bytes(32)
            h = bytes(sk[-64:-32]); pk = bytes(sk[p.pvb:p.pvb + p.pkb])
            g = hashlib.sha3_512(m + h).digest()
            ct = K.icpa_enc(m, pk, g[32:])
            d = mo.get('delta')
            if d is not None:
                out.append(dict(ct=bytes(a ^ b for a, b in zip(ct, d)), sk=bytes(sk)))
            out.append(dict(ct=ct, sk=bytes(sk)))
            b = bytearray(ct); n = p.uvb * 8 + p.dv * int(rnd.integers(0, 256)); b[n >> 3] ^= 1 << (n & 7)
            out.append(dict(ct=bytes(b), sk=bytes(sk)))
    return out

def search(impl, k, op, mode, budget=30, assigns=(), targets=(), models=(), seed=1, filt=None):
    """mode: own (KEM against the library's own PKE), spec (against the specification), diff (other implementation, then the
    specification decides), filt: restricts input families"""
    def go():
        rnd = np.random.default_rng(seed)
        K = native.Kem(impl, k)
        O = native.Kem('avx2' if impl == 'ref' else 'ref', k)
        asg = list(assigns)
        if models and op == 'dec': asg = fo_assign(K, models, rnd) + asg
        end = time.time() + budget; n = 0; nspec = 0; tspec = 0.0
        t0 = time.time()
        for tag, x in gen(K, k, op, rnd, asg, targets):
            if time.time() > end: break
            if filt and tag not in filt: continue
            n += 1
            got = run_op(K, op, x)
            bad = None
            if not all(b.intact() for b in K.b.values()): bad = ('buffer overrun', None)
            elif mode == 'own':
                w = own_oracle(K, op, x)
                if w != got: bad = ('wrong output', w)
            else:
                other = run_op(O, op, x)
                if mode == 'diff':
                    if other != got: bad = ('implementations differ', other)
                else:
                    if other != got or tspec < 0.5 * (time.time() - t0) or tag == 'solver':
                        t1 = time.time(); w = oracle(k, op, x); tspec += time.time() - t1; nspec += 1
                        if w != got: bad = ('wrong output', w)
            if bad:
                w = bad[1]
                f = None
                if w: f = next(a for a in w if w[a] != got[a])
                return dict(kind=bad[0], impl=impl, k=k, op=op, family=tag, inputs={a: bytes(v).hex() for a, v in x.items()}, field=f,
                            got={a: (v.hex() if isinstance(v, bytes) else v) for a, v in got.items()},
                            expected={a: (v.hex() if isinstance(v, bytes) else v) for a, v in (w or {}).items()}, tried=n,
                            how='native shared library built from the current tree, called through its byte-level entry points')
        return dict(none=True, tried=n, spec=nspec)
    st, v = native.isolated(go, budget + 30)
    if st == 'crash': return dict(kind='crash', impl=impl, k=k, op=op, signal=v)
    if st == 'ok' and v and not v.get('none'): return v
    return None

# ------------------------------------------------------------------ randomised entry points
FEED = '''#include <stddef.h>
#include <stdint.h>
#include <string.h>
uint8_t rb_feed[4096]; size_t rb_used, rb_max = 4096;
void randombytes(uint8_t *o, size_t n) { if (rb_used + n > rb_max) n = rb_max - rb_used; memcpy(o, rb_feed + rb_used, n); rb_used += n; }
'''
def search_random(impl, k, op, budget=5, seed=1):
    """crypto_kem_keypair / crypto_kem_enc against the seeded versions"""
    f = os.path.join(build.scratch(), 'rbfeed.c')
    with open(f, 'w') as h: h.write(FEED)
    def go():
        rnd = np.random.default_rng(seed)
        K = native.Kem(impl, k, extra_src=(f,))
        feed = (ctypes.c_uint8 * 4096).in_dll(K.l, 'rb_feed'); used = ctypes.c_size_t.in_dll(K.l, 'rb_used')
        need = 64 if op == 'keypair' else 32
        end = time.time() + budget
        b = K.b
        while time.time() < end:
            s = rnd.bytes(256)
            ctypes.memmove(feed, s, 256); used.value = 0
            pk = K.keypair(rnd.bytes(64))[0]
            if op == 'keypair':
                used.value = 0; r = K.f('keypair')(b['pk'].ptr, b['sk'].ptr); got = (b['pk'].get(), b['sk'].get(), r, used.value); u = used.value
                want = K.keypair(s[:64]) + (0, 64)
            else:
                b['pk'].set(pk); used.value = 0; r = K.f('enc')(b['ct'].ptr, b['ss'].ptr, b['pk'].ptr); got = (b['ct'].get(), b['ss'].get(), r, used.value)
                want = K.enc(pk, s[:32]) + (0, 32)
            if got != want:
                return dict(kind='randomised entry point', impl=impl, k=k, op=op, random=s[:64].hex(), pk=pk.hex() if op == 'enc' else '', got=str(got[2:]), drawn=got[3],
                            equal=[a == b for a, b in zip(got, want)], how='native library linked with a recording randombytes')
        return None
    st, v = native.isolated(go, budget + 30)
    if st == 'crash': return dict(kind='crash', impl=impl, k=k, op=op, signal=v)
    return v if st == 'ok' else None
