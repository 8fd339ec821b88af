"""Vector helpers used by compiled IR and by the x86 executor."""
from .terms import *
from . import terms as tm
from .ir import V

def relane(v, w):
    """lanes of v at width w"""
    if v.__class__ is not V:
        # scalar used as vector
        return [v]
    lw = v.lw; l = v.l
    if lw == w: return l
    if lw > w:
        k = lw // w
        out = []
        m = MASK[w]
        for x in l:
            if x.__class__ is int:
                for i in range(k): out.append((x >> (i * w)) & m)
            else:
                for i in range(k): out.append(ext(x, i * w, w))
        return out
    k = w // lw
    out = []
    for i in range(0, len(l), k):
        if all(x.__class__ is int for x in l[i:i + k]):
            s = 0
            for j in range(k): s |= l[i + j] << (j * lw)
            out.append(s)
        else:
            out.append(cat([(x, lw) for x in l[i:i + k]]))
    return out

def v2s(v, w):
    return relane(v, w)[0]

BINF = {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor,
        'shl': shl, 'lshr': lshr, 'ashr': ashr, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}
BITW = {'and', 'or', 'xor'}

def vbin(op, w, a, b):
    f = BINF[op]
    if op in BITW and a.lw == b.lw and a.lw != w:
        w = a.lw
    x = relane(a, w); y = relane(b, w)
    return V(w, [f(w, p, q) for p, q in zip(x, y)])

def vcmp(pr, w, a, b):
    x = relane(a, w); y = relane(b, w)
    if pr == 'eq': r = [eq(w, p, q) for p, q in zip(x, y)]
    elif pr == 'ne': r = [xor(1, eq(w, p, q), 1) for p, q in zip(x, y)]
    elif pr == 'sgt': r = [slt(w, q, p) for p, q in zip(x, y)]
    elif pr == 'slt': r = [slt(w, p, q) for p, q in zip(x, y)]
    elif pr == 'ugt': r = [ult(w, q, p) for p, q in zip(x, y)]
    elif pr == 'ult': r = [ult(w, p, q) for p, q in zip(x, y)]
    elif pr == 'sge': r = [xor(1, slt(w, p, q), 1) for p, q in zip(x, y)]
    elif pr == 'sle': r = [xor(1, slt(w, q, p), 1) for p, q in zip(x, y)]
    elif pr == 'uge': r = [xor(1, ult(w, p, q), 1) for p, q in zip(x, y)]
    elif pr == 'ule': r = [xor(1, ult(w, q, p), 1) for p, q in zip(x, y)]
    else: raise Exception('vcmp ' + pr)
    return V(1, r)

def vcast(op, w1, w2, a):
    x = relane(a, w1)
    if op == 'trunc': return V(w2, [ext(p, 0, w2) for p in x])
    if op == 'zext': return V(w2, [zext(p, w1, w2) for p in x])
    if op == 'sext': return V(w2, [sext(p, w1, w2) for p in x])
    raise Exception(op)

def vselect(c, isv, a, b, w):
    x = relane(a, w); y = relane(b, w)
    if isv: return V(w, [ite(k, p, q, w) for k, p, q in zip(relane(c, 1), x, y)])
    return V(w, [ite(c, p, q, w) for p, q in zip(x, y)])

def vshuf(w, n, a, b, ml):
    # move at coarser granularity when lanes stay together
    lw = a.lw
    if a.lw != w or b.lw != w:
        if lw == b.lw and lw < w:
            k = w // lw
            x = a.l + b.l
            out = []
            for m in ml:
                if m < 0: out += [0] * k
                else: out += x[m * k:m * k + k]
            return V(lw, out)
        x = relane(a, w) + relane(b, w)
    else:
        x = a.l + b.l
    return V(w, [0 if m < 0 else x[m] for m in ml])

def vins(w, a, x, n):
    l = list(relane(a, w))
    if n.__class__ is not int: raise Exception('symbolic insert index')
    l[n] = x
    return V(w, l)

def vext(w, a, n):
    l = relane(a, w)
    if n.__class__ is not int: raise Exception('symbolic extract index')
    return l[n]

# ---- intrinsics
def _sh(f, w):
    def g(a, n):
        if n.__class__ is not int: raise Exception('symbolic shift count')
        if f is not ashrc and n >= w: return V(w, [0] * len(relane(a, w)))
        return V(w, [f(w, x, min(n, w)) for x in relane(a, w)])
    return g
i_psrli16 = _sh(lshrc, 16); i_psrli32 = _sh(lshrc, 32); i_psrli64 = _sh(lshrc, 64)
i_pslli16 = _sh(shlc, 16); i_pslli32 = _sh(shlc, 32); i_pslli64 = _sh(shlc, 64)
i_psrai16 = _sh(ashrc, 16); i_psrai32 = _sh(ashrc, 32)

def mulhi(x, y):
    return ext(mul(32, sext(x, 16, 32), sext(y, 16, 32)), 16, 16)
def mulhu(x, y):
    return ext(mul(32, zext(x, 16, 32), zext(y, 16, 32)), 16, 16)
def i_pmulhw(a, b): return V(16, [mulhi(x, y) for x, y in zip(relane(a, 16), relane(b, 16))])
def i_pmulhuw(a, b): return V(16, [mulhu(x, y) for x, y in zip(relane(a, 16), relane(b, 16))])
def mulhrs(x, y):
    p = mul(32, sext(x, 16, 32), sext(y, 16, 32))
    return ext(add(32, p, 1 << 14), 15, 16)
def i_pmulhrsw(a, b): return V(16, [mulhrs(x, y) for x, y in zip(relane(a, 16), relane(b, 16))])

def _satu(x, w, t):
    """signed w -> unsigned t saturation"""
    mx = MASK[t]
    if x.__class__ is not int:
        l, h = srng(x)
        if l >= 0 and h <= mx: return ext(x, 0, t)
        if l >= 0: return ite(slt(w, mx, x), mx, ext(x, 0, t), t)
    return ite(slt(w, x, 0), 0, ite(slt(w, mx, x), mx, ext(x, 0, t), t), t)
def _sats(x, w, t):
    mx = (1 << (t - 1)) - 1; mn = MASK[w] ^ MASK[t - 1]
    if x.__class__ is not int:
        l, h = srng(x)
        if l >= -(1 << (t - 1)) and h <= mx: return ext(x, 0, t)
    return ite(slt(w, x, mn), mn & MASK[t], ite(slt(w, mx, x), mx, ext(x, 0, t), t), t)
def _pack(f, w):
    def g(a, b):
        x = relane(a, w); y = relane(b, w); t = w // 2
        n = 128 // w; out = []
        for o in range(0, len(x), n):
            out += [f(v, w, t) for v in x[o:o + n]] + [f(v, w, t) for v in y[o:o + n]]
        return V(t, out)
    return g
i_packuswb = _pack(_satu, 16); i_packsswb = _pack(_sats, 16)
i_packusdw = _pack(_satu, 32); i_packssdw = _pack(_sats, 32)

def i_pmaddwd(a, b):
    x = relane(a, 16); y = relane(b, 16); out = []
    for i in range(0, len(x), 2):
        out.append(add(32, mul(32, sext(x[i], 16, 32), sext(y[i], 16, 32)), mul(32, sext(x[i + 1], 16, 32), sext(y[i + 1], 16, 32))))
    return V(32, out)
def i_pmaddubsw(a, b):
    x = relane(a, 8); y = relane(b, 8); out = []
    for i in range(0, len(x), 2):
        s = add(18, mul(18, zext(x[i], 8, 18), sext(y[i], 8, 18)), mul(18, zext(x[i + 1], 8, 18), sext(y[i + 1], 8, 18)))
        l, h = srng_(s, 18)
        if l >= -32768 and h <= 32767: out.append(ext(s, 0, 16))
        else:
            out.append(ite(slt(18, s, (-32768) & MASK[18]), 0x8000, ite(slt(18, 32767, s), 0x7fff, ext(s, 0, 16), 16), 16))
    return V(16, out)
def _shv(f, w):
    def g(a, b):
        out = []
        for x, n in zip(relane(a, w), relane(b, w)):
            if n.__class__ is not int:
                if n.nz < w: out.append({shlc: shl, lshrc: lshr}[f](w, x, n)); continue
                raise Exception('symbolic variable shift')
            out.append(0 if n >= w else f(w, x, n))
        return V(w, out)
    return g
i_psllvd = _shv(shlc, 32); i_psrlvd = _shv(lshrc, 32); i_psllvq = _shv(shlc, 64); i_psrlvq = _shv(lshrc, 64)

def i_pshufb(a, m):
    k = relane(m, 8)
    w = 8
    # coarser moves: detect pairs
    if all(x.__class__ is int for x in k):
        if a.lw in (16, 32, 64) :
            g = a.lw // 8; ok = True; idx = []
            for i in range(0, len(k), g):
                if k[i] & 0x80:
                    if all(k[i + j] & 0x80 for j in range(g)): idx.append(-1); continue
                    ok = False; break
                b = (k[i] & 15) + (i & ~15)
                if b % g or any((k[i + j] & 0x80) or (k[i + j] & 15) != (k[i] & 15) + j for j in range(g)): ok = False; break
                idx.append(b // g)
            if ok: return V(a.lw, [0 if b < 0 else a.l[b] for b in idx])
        x = relane(a, 8)
        return V(8, [0 if c & 0x80 else x[(c & 15) + (i & ~15)] for i, c in enumerate(k)])
    x = relane(a, 8)
    out = []
    for i, c in enumerate(k):
        base = i & ~15
        if c.__class__ is int:
            out.append(0 if c & 0x80 else x[(c & 15) + base])
        else:
            out.append(uf('pshufb', 8, tuple(x[base:base + 16]) + (c,)) if PSHUFB_UF else _sel(x[base:base + 16], c))
    return V(8, out)
PSHUFB_UF = False

def _sel(x, c):
    """x[c&15] or 0 if top bit"""
    r = list(x)
    for b in range(4):
        cb = ext(c, b, 1)
        r = [ite(cb, r[j + 1], r[j], 8) for j in range(0, len(r), 2)]
    return ite(ext(c, 7, 1), 0, r[0], 8)

def i_pmovmskb(a):
    x = relane(a, 8)
    return zext(cat([(ext(v, 7, 1), 1) for v in x]) if any(v.__class__ is not int for v in x) else sum(((v >> 7) & 1) << i for i, v in enumerate(x)), len(x), 32)
def i_movmskpd(a):
    x = relane(a, 64); return zext(cat([(ext(v, 63, 1), 1) for v in x]), len(x), 32)
def i_movmskps(a):
    x = relane(a, 32); return zext(cat([(ext(v, 31, 1), 1) for v in x]), len(x), 32)

def _popcnt(w, x):
    if x.__class__ is int: return bin(x).count('1')
    c = 0; ts = []
    for i in range(w):
        b = ext(x, i, 1)
        if b.__class__ is int: c += b
        else: ts.append((1, zext(b, 1, w)))
    return addn(w, c, ts)
def i_ctpop32(x): return _popcnt(32, x)
def i_ctpop64(x): return _popcnt(64, x)
def i_ctpop16(x): return _popcnt(16, x)

def _pext(w, x, m):
    if m.__class__ is not int: raise Exception('symbolic pext mask')
    out = [(ext(x, i, 1), 1) for i in range(w) if (m >> i) & 1]
    return cat(out + [(0, w - len(out))])
def i_pext32(x, m): return _pext(32, x, m)
def i_pext64(x, m): return _pext(64, x, m)
def _pdep(w, x, m):
    if m.__class__ is not int: raise Exception('symbolic pdep mask')
    out = []; k = 0
    for i in range(w):
        if (m >> i) & 1: out.append((ext(x, k, 1), 1)); k += 1
        else: out.append((0, 1))
    return cat(out)
def i_pdep32(x, m): return _pdep(32, x, m)
def i_pdep64(x, m): return _pdep(64, x, m)

def i_ptestz(a, b):
    x = relane(a, 64); y = relane(b, 64)
    if a is b or a.l == b.l: z = x
    else: z = [and_(64, p, q) for p, q in zip(x, y)]
    r = 1
    for p in z: r = and_(1, r, eq(64, p, 0))
    return zext(r, 1, 32)
def i_ptestc(a, b):
    x = relane(a, 64); y = relane(b, 64)
    r = 1
    for p, q in zip(x, y): r = and_(1, r, eq(64, and_(64, not_(64, p), q), 0))
    return zext(r, 1, 32)
def _blendv(w0):
    def g(a, b, m):
        k = relane(m, w0); w = w0
        x = relane(a, w); y = relane(b, w)
        return V(w, [ite(ext(c, w - 1, 1), q, p, w) for p, q, c in zip(x, y, k)])
    return g
i_pblendvb = _blendv(8); i_blendvps = _blendv(32); i_blendvpd = _blendv(64)
def i_psignw(a, b):
    return V(16, [ite(eq(16, y, 0), 0, ite(ext(y, 15, 1), neg(16, x), x, 16), 16) for x, y in zip(relane(a, 16), relane(b, 16))])
def i_permd(a, b):
    x = relane(a, 32); k = relane(b, 32)
    return V(32, [x[c & 7] for c in k])
def _bswap(w, x):
    return cat([(ext(x, w - 8 - i, 8), 8) for i in range(0, w, 8)])
def i_bswap64(x): return _bswap(64, x)
def i_bswap32(x): return _bswap(32, x)
def i_bswap16(x): return _bswap(16, x)
def _fsh(w, left):
    def g(a, b, n):
        if n.__class__ is not int: raise Exception('symbolic funnel shift')
        n %= w
        if n == 0: return a if left else b
        if left: return or_(w, shlc(w, a, n), lshrc(w, b, w - n))
        return or_(w, shlc(w, a, w - n), lshrc(w, b, n))
    return g
def _vfsh(w, left):
    f = _fsh(w, left)
    def g(a, b, n): return V(w, [f(x, y, z) for x, y, z in zip(relane(a, w), relane(b, w), relane(n, w))])
    return g
def _mm(w, k):
    def smax(a, b): return ite(slt(w, a, b), b, a, w)
    def smin(a, b): return ite(slt(w, a, b), a, b, w)
    def umax(a, b): return ite(ult(w, a, b), b, a, w)
    def umin(a, b): return ite(ult(w, a, b), a, b, w)
    return {'smax': smax, 'smin': smin, 'umax': umax, 'umin': umin}[k]
def _vmm(w, k):
    f = _mm(w, k)
    return lambda a, b: V(w, [f(x, y) for x, y in zip(relane(a, w), relane(b, w))])
def _abs(w):
    return lambda a, _p=0: ite(slt(w, a, 0), neg(w, a), a, w)
def _vabs(w):
    f = _abs(w)
    return lambda a, _p=0: V(w, [f(x) for x in relane(a, w)])
for _w in (8, 16, 32, 64):
    for _k in ('smax', 'smin', 'umax', 'umin'):
        globals()['i_%s_%d' % (_k, _w)] = _mm(_w, _k)
        globals()['v_%s_%d' % (_k, _w)] = _vmm(_w, _k)
    globals()['i_fshl_%d' % _w] = _fsh(_w, True); globals()['i_fshr_%d' % _w] = _fsh(_w, False)
    globals()['v_fshl_%d' % _w] = _vfsh(_w, True); globals()['v_fshr_%d' % _w] = _vfsh(_w, False)
    globals()['i_abs_%d' % _w] = _abs(_w); globals()['v_abs_%d' % _w] = _vabs(_w)
def _vsat(w, kind):
    def f(a, b):
        W = w + 2
        s = kind[0] == 's'
        x = (sext if s else zext)(a, w, W); y = (sext if s else zext)(b, w, W)
        r = add(W, x, y) if 'add' in kind else sub(W, x, y)
        if s:
            mx = (1 << (w - 1)) - 1; mn = (-(1 << (w - 1))) & MASK[W]
        else: mx = MASK[w]; mn = 0
        return ite(slt(W, r, mn), mn & MASK[w], ite(slt(W, mx, r), mx, ext(r, 0, w), w), w)
    return lambda a, b: V(w, [f(x, y) for x, y in zip(relane(a, w), relane(b, w))])
for _w in (8, 16):
    for _k in ('usubsat', 'ssubsat', 'uaddsat', 'saddsat'):
        globals()['v_%s_%d' % (_k, _w)] = _vsat(_w, _k)
