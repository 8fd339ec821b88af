"""Specification oracle, written from FIPS 202 and the Kyber round-3/final specification, independent of the code.

Functions are polymorphic: bytes may be Python ints (concrete) or 8-bit terms (symbolic).
"""
from . import terms as tm
from .terms import T, MASK

Q = 3329; N = 256

class P:
    def __init__(s, k):
        s.k = k; s.eta1 = 3 if k == 2 else 2; s.eta2 = 2
        s.du = 11 if k == 4 else 10; s.dv = 5 if k == 4 else 4
        s.pvb = 384 * k; s.pkb = s.pvb + 32
        s.uvb = 32 * s.du * k; s.cvb = 32 * s.dv; s.ctb = s.uvb + s.cvb
        s.skb = s.pvb + s.pkb + 64; s.iskb = s.pvb
        s.name = 'kyber%d' % (256 * k)
PAR = {k: P(k) for k in (2, 3, 4)}

# ------------------------------------------------------------------ Keccak
def _rc():
    def bit(t):
        r = 1
        for _ in range(t % 255):
            r <<= 1
            if r & 0x100: r ^= 0x171
        return r & 1
    return [sum(bit(j + 7 * i) << ((1 << j) - 1) for j in range(7)) for i in range(24)]
RC = _rc()
def _rho():
    r = [[0] * 5 for _ in range(5)]
    x, y = 1, 0
    for t in range(24):
        r[x][y] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
    return r
RHO = _rho()

def _rol(v, n):
    if n == 0: return v
    if v.__class__ is int: return ((v << n) | (v >> (64 - n))) & MASK[64]
    return tm.cat(((tm.ext(v, 64 - n, n), n), (tm.ext(v, 0, 64 - n), 64 - n)))

def keccak_rounds(s):
    """states before round 0 .. after round 23"""
    out = [list(s)]
    for r in range(24): out.append(keccak_f(out[-1], (r,)))
    return out

def keccak_f(s, rounds=range(24)):
    """s: 25 lanes, index x+5y"""
    xor = tm.xor; xorn = tm.xorn
    A = list(s)
    sym = any(v.__class__ is not int for v in A)
    for rnd in rounds:
        if not sym:
            C = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
            D = [C[(x + 4) % 5] ^ _rol(C[(x + 1) % 5], 1) for x in range(5)]
            A = [A[i] ^ D[i % 5] for i in range(25)]
            B = [0] * 25
            for x in range(5):
                for y in range(5): B[y + 5 * ((2 * x + 3 * y) % 5)] = _rol(A[x + 5 * y], RHO[x][y])
            A = [B[i] ^ (~B[(i % 5 + 1) % 5 + i // 5 * 5] & B[(i % 5 + 2) % 5 + i // 5 * 5] & MASK[64]) for i in range(25)]
            A[0] ^= RC[rnd]
            continue
        C = [xorn(64, 0, [A[x], A[x + 5], A[x + 10], A[x + 15], A[x + 20]]) for x in range(5)]
        D = [xor(64, C[(x + 4) % 5], _rol(C[(x + 1) % 5], 1)) for x in range(5)]
        A = [xor(64, A[i], D[i % 5]) for i in range(25)]
        B = [0] * 25
        for x in range(5):
            for y in range(5): B[y + 5 * ((2 * x + 3 * y) % 5)] = _rol(A[x + 5 * y], RHO[x][y])
        A = [xor(64, B[i], tm.and_(64, tm.not_(64, B[(i % 5 + 1) % 5 + i // 5 * 5]), B[(i % 5 + 2) % 5 + i // 5 * 5])) for i in range(25)]
        A[0] = xor(64, A[0], RC[rnd])
    return A

def lanes(bs):
    out = []
    for i in range(0, len(bs), 8):
        w = bs[i:i + 8]
        if all(b.__class__ is int for b in w): out.append(int.from_bytes(bytes(w), 'little'))
        else: out.append(tm.cat([(b, 8) for b in w] + ([(0, 64 - 8 * len(w))] if len(w) < 8 else [])))
    return out

def sponge(msg, rate, dom, outlen, perm=keccak_f):
    m = list(msg)
    pad = rate - len(m) % rate
    p = [0] * pad; p[0] = dom; p[-1] ^= 0x80
    m += p
    s = [0] * 25
    for off in range(0, len(m), rate):
        L = lanes(m[off:off + rate])
        s = [tm.xor(64, s[i], L[i]) if i < len(L) else s[i] for i in range(25)]
        s = perm(s)
    out = []
    while True:
        for i in range(rate // 8):
            for j in range(8):
                if len(out) == outlen: return out
                out.append(tm.ext(s[i], 8 * j, 8))
        if len(out) >= outlen: return out[:outlen]
        s = perm(s)

def shake128(m, n, perm=keccak_f): return sponge(m, 168, 0x1f, n, perm)
def shake256(m, n, perm=keccak_f): return sponge(m, 136, 0x1f, n, perm)
def sha3_256(m, perm=keccak_f): return sponge(m, 136, 0x06, 32, perm)
def sha3_512(m, perm=keccak_f): return sponge(m, 72, 0x06, 64, perm)

# ------------------------------------------------------------------ NTT
def _brv(i, n=7):
    return int(format(i, '0%db' % n)[::-1], 2)
ZETAS = [pow(17, _brv(i), Q) for i in range(128)]          # zeta^brv(i)
GAMMA = [pow(17, 2 * _brv(i) + 1, Q) for i in range(128)]  # X^2 - gamma_i

def ntt(f):
    f = list(f); k = 1; l = 128
    while l >= 2:
        for s in range(0, 256, 2 * l):
            z = ZETAS[k]; k += 1
            for j in range(s, s + l):
                t = z * f[j + l] % Q
                f[j + l] = (f[j] - t) % Q; f[j] = (f[j] + t) % Q
        l >>= 1
    return f

def invntt(f):
    f = list(f); k = 127; l = 2
    while l <= 128:
        for s in range(0, 256, 2 * l):
            z = ZETAS[k]; k -= 1
            for j in range(s, s + l):
                t = f[j]
                f[j] = (t + f[j + l]) % Q; f[j + l] = z * (f[j + l] - t) % Q
        l <<= 1
    return [x * 3303 % Q for x in f]

def basemul(a, b):
    r = [0] * 256
    for i in range(128):
        r[2 * i] = (a[2 * i] * b[2 * i] + a[2 * i + 1] * b[2 * i + 1] * GAMMA[i]) % Q
        r[2 * i + 1] = (a[2 * i] * b[2 * i + 1] + a[2 * i + 1] * b[2 * i]) % Q
    return r

_mats = {}
def ntt_matrix():
    """rows: output i as coefficients of inputs"""
    if 'n' not in _mats:
        import numpy as np
        cols = [ntt([1 if i == j else 0 for i in range(256)]) for j in range(256)]
        _mats['n'] = np.array(cols).T.tolist()
    return _mats['n']
def invntt_matrix():
    if 'i' not in _mats:
        import numpy as np
        cols = [invntt([1 if i == j else 0 for i in range(256)]) for j in range(256)]
        _mats['i'] = np.array(cols).T.tolist()
    return _mats['i']

# ------------------------------------------------------------------ coding
def compress(x, d): return ((x << d) + Q // 2) // Q & ((1 << d) - 1)
def decompress(y, d): return (y * Q + (1 << (d - 1))) >> d
def pack(vals, d):
    acc = 0
    for i, v in enumerate(vals): acc |= v << (d * i)
    return list(acc.to_bytes(len(vals) * d // 8, 'little'))
def unpack(bs, d, n=256):
    acc = int.from_bytes(bytes(bs), 'little')
    return [(acc >> (d * i)) & ((1 << d) - 1) for i in range(n)]

# symbolic field i of width d of a byte list
def field(bs, d, i):
    lo = d * i; hi = lo + d; ps = []
    while lo < hi:
        b = lo // 8; s = lo % 8; n = min(8 - s, hi - lo)
        ps.append((tm.ext(bs[b], s, n), n)); lo += n
    return tm.cat(ps)

def t_canon(v, w, lo, hi):
    """term of width 32: signed value v mod q (v in [lo,hi])"""
    C = ((-lo) // Q + 1) * Q if lo < 0 else 0
    x = v & MASK[32] if type(v) is not T else tm.sext(v, w, 32) if w <= 32 else tm.ext(v, 0, 32)
    return tm.urem(32, tm.add(32, x, C), Q)
def t_compress(r, d):
    """r: width-32 term in [0,q)"""
    return tm.ext(tm.udiv(32, tm.add(32, tm.mul(32, r, 1 << d), Q // 2), Q), 0, d)
def t_decompress(y, d):
    """16-bit signed value"""
    return tm.ext(tm.add(32, tm.mul(32, tm.zext(y, d, 32), Q), 1 << (d - 1)), d, 16)
def t_cbd(bits, eta):
    """bits: 2*eta one-bit terms -> 16-bit term"""
    return tm.addn(16, 0, [(1, tm.zext(b, 1, 16)) for b in bits[:eta]] + [(MASK[16], tm.zext(b, 1, 16)) for b in bits[eta:]])
def cbd_terms(buf, eta):
    def bit(i): return tm.ext(buf[i // 8], i % 8, 1)
    return [t_cbd([bit(2 * eta * i + j) for j in range(2 * eta)], eta) for i in range(256)]

# ------------------------------------------------------------------ concrete reference KEM
def cbd(buf, eta):
    def bit(i): return (buf[i // 8] >> (i % 8)) & 1
    return [(sum(bit(2 * eta * i + j) for j in range(eta)) - sum(bit(2 * eta * i + eta + j) for j in range(eta))) % Q for i in range(256)]

def parse(stream):
    """uniform sampling; stream: function n -> bytes[0:n]"""
    n = 504
    while True:
        b = stream(n); out = []
        for i in range(0, n - 2, 3):
            for v in (b[i] | (b[i + 1] & 15) << 8, b[i + 1] >> 4 | b[i + 2] << 4):
                if v < Q and len(out) < 256: out.append(v)
        if len(out) == 256: return out
        n += 168

import hashlib
def h_shake128(m, n): return hashlib.shake_128(bytes(m)).digest(n)
def h_shake256(m, n): return list(hashlib.shake_256(bytes(m)).digest(n))

def gen_a(seed, k, transposed):
    return [[parse(lambda n, i=i, j=j: h_shake128(bytes(seed) + (bytes([i, j]) if transposed else bytes([j, i])), n)) for j in range(k)] for i in range(k)]

def polyadd(*ps): return [sum(c) % Q for c in zip(*ps)]

def indcpa_keypair(k, d, gen=None):
    p = PAR[k]
    b = hashlib.sha3_512(bytes(d) + bytes([k])).digest()
    rho, sig = b[:32], b[32:]
    A = (gen or gen_a)(rho, k, False)
    s = [ntt(cbd(h_shake256(sig + bytes([i]), 64 * p.eta1), p.eta1)) for i in range(k)]
    e = [ntt(cbd(h_shake256(sig + bytes([k + i]), 64 * p.eta1), p.eta1)) for i in range(k)]
    t = [polyadd(*([basemul(A[i][j], s[j]) for j in range(k)] + [e[i]])) for i in range(k)]
    return sum((pack(x, 12) for x in t), []) + list(rho), sum((pack(x, 12) for x in s), [])

def indcpa_enc(k, m, pk, coins, gen=None):
    p = PAR[k]
    t = [[v % Q for v in unpack(pk[384 * i:384 * i + 384], 12)] for i in range(k)]
    rho = bytes(pk[p.pvb:])
    A = (gen or gen_a)(rho, k, True)
    coins = bytes(coins)
    r = [ntt(cbd(h_shake256(coins + bytes([i]), 64 * p.eta1), p.eta1)) for i in range(k)]
    e1 = [cbd(h_shake256(coins + bytes([k + i]), 128), 2) for i in range(k)]
    e2 = cbd(h_shake256(coins + bytes([2 * k]), 128), 2)
    u = [polyadd(invntt(polyadd(*[basemul(A[i][j], r[j]) for j in range(k)])), e1[i]) for i in range(k)]
    mp = [((m[i // 8] >> (i % 8)) & 1) * 1665 for i in range(256)]
    v = polyadd(invntt(polyadd(*[basemul(t[j], r[j]) for j in range(k)])), e2, mp)
    return sum((pack([compress(x, p.du) for x in q], p.du) for q in u), []) + pack([compress(x, p.dv) for x in v], p.dv)

def indcpa_dec(k, c, sk):
    p = PAR[k]
    u = [ntt([decompress(y, p.du) for y in unpack(c[32 * p.du * i:32 * p.du * (i + 1)], p.du)]) for i in range(k)]
    v = [decompress(y, p.dv) for y in unpack(c[p.uvb:], p.dv)]
    s = [[x % Q for x in unpack(sk[384 * i:384 * i + 384], 12)] for i in range(k)]
    w = invntt(polyadd(*[basemul(s[j], u[j]) for j in range(k)]))
    return pack([compress((a - b) % Q, 1) for a, b in zip(v, w)], 1)

def keypair(k, coins):
    pk, isk = indcpa_keypair(k, coins[:32])
    return pk, isk + pk + list(hashlib.sha3_256(bytes(pk)).digest()) + list(coins[32:64])
def enc(k, pk, coins):
    g = hashlib.sha3_512(bytes(coins[:32]) + hashlib.sha3_256(bytes(pk)).digest()).digest()
    return indcpa_enc(k, list(coins[:32]), list(pk), g[32:]), list(g[:32])
def dec(k, ct, sk):
    p = PAR[k]
    m = indcpa_dec(k, ct, sk[:p.pvb])
    pk = sk[p.pvb:p.pvb + p.pkb]
    h = sk[p.pvb + p.pkb:p.pvb + p.pkb + 32]; z = sk[p.pvb + p.pkb + 32:]
    g = hashlib.sha3_512(bytes(m) + bytes(h)).digest()
    c2 = indcpa_enc(k, m, list(pk), g[32:])
    return list(g[:32]) if list(c2) == list(ct) else h_shake256(bytes(z) + bytes(ct), 32)
