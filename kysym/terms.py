"""Hash-consed bit-vector terms with a normalising constructor layer.

A value is either a Python int (constant, unsigned representation) or a T node.
Every constructor takes the width explicitly.  Normal forms:
  cat  : a = ((v,w),...) low piece first; pieces are ints or non-cat T
  ext  : a = (x, lo)      width w of a non-cat node
  sext : a = (x,)         sign extension
  xor  : a = (const, (T,...))   n-ary, sorted by id
  and  : a = (T,...)            n-ary over literals, sorted by id (masks become cat)
  add  : a = (const, ((coef,T),...)) sum modulo 2^w
  mul  : a = (x,y)
  ite  : a = (c,x,y)
  eq/ult/slt : 1 bit
  udiv urem sdiv srem shl lshr ashr : a=(x,y)
  uf   : a = (name, tuple of args)
  sym  : a = (name,)
"""
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__ = ('op', 'w', 'a', 'id', 'nz', 'lab', 'iv', 'siv', 'x')
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id

_tab = {}
_cnt = [0]
MASK = [(1 << i) - 1 for i in range(4097)]

def reset():
    _tab.clear()

def nnodes():
    return _cnt[0]

def _mk(op, w, a, nz, lab):
    k = (op, w, a)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op; t.w = w; t.a = a; t.nz = nz; t.lab = lab; t.iv = None; t.siv = None; t.x = None
    _cnt[0] += 1
    t.id = _cnt[0]
    _tab[k] = t
    return t

def lab_of(v):
    return 0 if type(v) is int else v.lab

def sym(name, w, lab=0, nz=None, rng=None, srng=None):
    t = _mk('sym', w, (name, nz, rng, srng, lab), MASK[w] if nz is None else nz, lab)
    if rng is not None: t.iv = rng
    if srng is not None: t.siv = srng
    return t

_fresh = [0]
def fresh(prefix, w, lab=0):
    _fresh[0] += 1
    return sym('%s!%d' % (prefix, _fresh[0]), w, lab)

def nzof(v):
    return v if type(v) is int else v.nz

# ---------------------------------------------------------------- cat / ext
def cat(pieces):
    """pieces: iterable of (v,w), low first."""
    out = []
    for v, w in pieces:
        if w == 0: continue
        if type(v) is not int and v.op == 'cat':
            for p in v.a: _push(out, p[0], p[1])
        else:
            _push(out, v, w)
    if len(out) == 1:
        return out[0][0]
    lab = 0; nz = 0; off = 0
    for v, w in out:
        if type(v) is int: nz |= v << off
        else:
            nz |= v.nz << off; lab |= v.lab
        off += w
    return _mk('cat', off, tuple(out), nz, lab)

def _push(out, v, w):
    if out:
        pv, pw = out[-1]
        ti = type(v) is int; tp = type(pv) is int
        if ti and tp:
            out[-1] = (pv | (v << pw), pw + w); return
        if not ti and not tp:
            # contiguous extracts of the same node
            if v.op == 'ext':
                x, lo = v.a
                if pv.op == 'ext':
                    if pv.a[0] is x and pv.a[1] + pw == lo:
                        nv = ext(x, pv.a[1], pw + w)
                        out.pop(); _push(out, nv, pw + w) if nv.op != 'cat' else out.extend(nv.a)
                        return
                elif lo == pw and _is_low_of(pv, x, pw):
                    nv = ext(x, 0, pw + w)
                    out.pop()
                    _push(out, nv, pw + w) if (type(nv) is not int and nv.op != 'cat') else out.extend(nv.a)
                    return
        if ti and v == 0 and False:
            pass
    out.append((v, w))

def _is_low_of(pv, x, pw):
    # x may be e.g. an add whose truncation was distributed
    if x.op == 'add' or x.op == 'mul' or x.op == 'sext':
        return ext(x, 0, pw) is pv
    return False

def ext(x, lo, w):
    if type(x) is int:
        return (x >> lo) & MASK[w]
    xw = x.w
    if lo == 0 and w == xw: return x
    op = x.op
    if (x.nz >> lo) & MASK[w] == 0: return 0
    if op == 'ext':
        return ext(x.a[0], x.a[1] + lo, w)
    if op == 'cat':
        out = []; off = 0; hi = lo + w
        for v, pw in x.a:
            e = off + pw
            if e > lo and off < hi:
                s = lo - off if lo > off else 0
                t = (hi if hi < e else e) - off
                if s == 0 and t == pw: out.append((v, pw))
                else: out.append((ext(v, s, t - s), t - s))
            off = e
            if off >= hi: break
        if len(out) == 1: return out[0][0]
        return cat(out)
    if op == 'sext':
        y = x.a[0]; yw = y.w
        if lo + w <= yw: return ext(y, lo, w)
        if lo >= yw:
            s = ext(y, yw - 1, 1)
            return s if w == 1 else sext(s, 1, w)
        return sext(ext(y, lo, yw - lo), yw - lo, w)
    if lo == 0:
        if op == 'add' and len(x.a[1]) == 1:
            c, ts = x.a
            return addn(w, c, [(k, ext(t, 0, w)) for k, t in ts])
        if op == 'mul':
            return mul(w, ext(x.a[0], 0, w), ext(x.a[1], 0, w))
    if op == 'ite':
        c, p, q = x.a
        if type(p) is int or type(q) is int or p.op in ('cat','ite') or q.op in ('cat','ite'):
            return ite(c, ext(p, lo, w), ext(q, lo, w), w)
    if op == 'xor' and w == 1 and len(x.a[1]) == 1:   # complement
        return xor(1, (x.a[0] >> lo) & 1, ext(x.a[1][0], lo, 1))
    if op == 'xor' and len(x.a[1]) == 1:
        return xor(w, (x.a[0] >> lo) & MASK[w], ext(x.a[1][0], lo, w))
    if (op == 'and' or op == 'xor') and xw > 16 and w <= 32:
        # lane-wise operation on packed 16/32-bit lanes: narrow to the lane
        us = x.a if op == 'and' else x.a[1]
        if len(us) <= 4:
            sp = [_lane(u, lo, w) for u in us]
            if None not in sp:
                if op == 'and':
                    r = sp[0]
                    for u in sp[1:]: r = and_(w, r, u)
                    return r
                return xorn(w, (x.a[0] >> lo) & MASK[w], sp)
    return _mk('ext', w, (x, lo), (x.nz >> lo) & MASK[w], x.lab)

def _lane(u, lo, w):
    """slice of u lying inside one 16/32-bit piece of a cat (possibly complemented), or None"""
    c = 0
    if u.op == 'xor' and len(u.a[1]) == 1: c = (u.a[0] >> lo) & MASK[w]; u = u.a[1][0]
    if u.op == 'and' and u.w > 16:
        sp = [_lane(v, lo, w) for v in u.a]
        if None in sp: return None
        r = sp[0]
        for v in sp[1:]: r = and_(w, r, v)
        return xor(w, r, c)
    if u.op != 'cat': return None
    off = 0
    for v, pw in u.a:
        if off + pw > lo:
            if (pw == 16 or pw == 32) and off % 16 == 0 and lo + w <= off + pw:
                return xor(w, ext(v, lo - off, w), c)
            return None
        off += pw
    return None

def _piecy(t):
    return t.op == 'cat' or (t.op == 'xor' and len(t.a[1]) == 1 and t.a[1][0].op == 'cat')

def zext(v, w, W):
    if type(v) is int: return v
    if W == w: return v
    return cat(((v, w), (0, W - w)))

def sext(v, w, W):
    if type(v) is int:
        return v if v < (1 << (w - 1)) else v | (MASK[W] ^ MASK[w])
    if W == w: return v
    if not (v.nz >> (w - 1)) & 1:
        return cat(((v, w), (0, W - w)))
    if v.op == 'sext': return sext(v.a[0], v.a[0].w, W)
    if v.op == 'cat':
        hv, hw = v.a[-1]
        # sign bit constant one?
        if type(hv) is int:
            pass  # nz top bit set and const -> top bit is 1
            return cat(tuple(v.a) + ((MASK[W - w], W - w),))
    return _mk('sext', W, (v,), (v.nz & MASK[w]) | (MASK[W] ^ MASK[w - 1]) if (v.nz >> (w-1)) & 1 else v.nz, v.lab)

def shlc(w, v, n):
    if type(v) is int: return (v << n) & MASK[w]
    if n == 0: return v
    if n >= w: return 0
    return cat(((0, n), (ext(v, 0, w - n), w - n)))

def lshrc(w, v, n):
    if type(v) is int: return v >> n
    if n == 0: return v
    if n >= w: return 0
    return cat(((ext(v, n, w - n), w - n), (0, n)))

def ashrc(w, v, n):
    if n >= w: n = w - 1
    if type(v) is int:
        s = v if v < (1 << (w - 1)) else v - (1 << w)
        return (s >> n) & MASK[w]
    if n == 0: return v
    return sext(ext(v, n, w - n), w - n, w)

# ---------------------------------------------------------------- bitwise
def not_(w, a):
    return xor(w, a, MASK[w])

def xor(w, a, b):
    if type(a) is int:
        if type(b) is int: return a ^ b
        a, b = b, a
    if type(b) is int:
        if b == 0: return a
        if a.op == 'xor':
            return _xfin(w, a.a[0] ^ b, a.a[1])
        return _xfin(w, b, (a,))
    return xorn(w, 0, (a, b))

def _xfin(w, c, ts):
    """ts: sorted tuple of non-xor terms whose cats have only zero constant pieces"""
    if not ts: return c
    if len(ts) == 1:
        t = ts[0]
        if c == 0: return t
        if t.op == 'cat' and (c != MASK[w] or _cat_lit(t)):
            out = []; lo = 0
            for v, pw in t.a:
                out.append((xor(pw, v, (c >> lo) & MASK[pw]), pw)); lo += pw
            return cat(out)
    nz = c; lab = 0
    for t in ts: nz |= t.nz; lab |= t.lab
    return _mk('xor', w, (c, ts), nz, lab)

def xorn(w, c, args):
    s = {}
    cats = None
    for t in args:
        if type(t) is int: c ^= t; continue
        if t.op == 'xor':
            c ^= t.a[0]
            for u in t.a[1]:
                if u in s: del s[u]
                else: s[u] = 1
                if u.op == 'cat' and u.a and (cats or _cat_lit(u)):
                    cats = True
        else:
            if t.op == 'cat' and _cat_lit(t):
                k = 0; off = 0
                for v, pw in t.a:
                    if type(v) is int: k |= v << off
                    off += pw
                if k:
                    c ^= k
                    t = cat([(0 if type(v) is int else v, pw) for v, pw in t.a])
                cats = True
            if t in s: del s[t]
            else: s[t] = 1
    if cats and len(s) > 1:
        cl = [t for t in s if t.op == 'cat' and _cat_lit(t)]
        if len(cl) > 1:
            merged = []
            for t in cl:
                for i, m in enumerate(merged):
                    if m.nz & t.nz == 0:
                        merged[i] = _cat_bit(w, m, t, _disj2); break
                else:
                    merged.append(t)
            if len(merged) != len(cl):
                for t in cl: del s[t]
                return xorn(w, c, list(s) + merged)
    if len(s) > 1: return _xfin(w, c, tuple(sorted(s)))
    return _xfin(w, c, tuple(s))

def _bounds(v):
    r = []; off = 0
    for p in v.a:
        off += p[1]; r.append(off)
    return r

def _cat_bit(w, a, b, f):
    """apply a bitwise op piecewise along the union of boundaries of cats a,b"""
    bs = set()
    if type(a) is not int: bs.update(_bounds(a) if a.op == 'cat' else (w,))
    if type(b) is not int: bs.update(_bounds(b) if b.op == 'cat' else (w,))
    out = []; lo = 0
    for e in sorted(bs):
        pw = e - lo
        out.append((f(pw, ext(a, lo, pw), ext(b, lo, pw)), pw))
        lo = e
    return cat(out)

def and_(w, a, b):
    if type(a) is int:
        if type(b) is int: return a & b
        a, b = b, a
    if type(b) is int:
        if b == 0: return 0
        m = MASK[w]
        if b == m: return a
        nz = a.nz
        if nz & b == 0: return 0
        if nz & b == nz: return a
        # split into runs
        out = []; i = 0
        while i < w:
            bit = (b >> i) & 1
            if bit:
                r = (~(b >> i)) & MASK[w - i]
                n = w - i if r == 0 else (r & -r).bit_length() - 1
                out.append((ext(a, i, n), n))
            else:
                r = b >> i
                n = w - i if r == 0 else (r & -r).bit_length() - 1
                out.append((0, n))
            i += n
        return cat(out)
    if a is b: return a
    if a.nz & b.nz == 0: return 0
    if a.op == 'cat' and _cat_lit(a) or b.op == 'cat' and _cat_lit(b):
        return _cat_bit(w, a, b, and_)
    s = set()
    for t in (a, b):
        if t.op == 'and': s.update(t.a)
        else: s.add(t)
    # x & ~x
    m = MASK[w]
    for t in s:
        if t.op == 'xor' and t.a[0] == m and len(t.a[1]) == 1 and t.a[1][0] in s: return 0
    nz = m; lab = 0
    for t in s: nz &= t.nz; lab |= t.lab
    if len(s) == 1: return s.pop()
    # drop operands whose zeros make it constant
    return _mk('and', w, tuple(sorted(s)), nz, lab)

def _cat_lit(a):
    """cat containing a constant piece (mask-like)"""
    for v, w in a.a:
        if type(v) is int: return True
    return False

def or_(w, a, b):
    if type(a) is int:
        if type(b) is int: return a | b
        a, b = b, a
    if type(b) is int:
        if b == 0: return a
        m = MASK[w]
        if b == m: return m
        # pieces: constants where b has ones
        return xor(w, and_(w, a, m ^ b), b)
    if a is b: return a
    if a.nz & b.nz == 0:
        return disj(w, a, b)
    if a.op == 'cat' and _cat_lit(a) or b.op == 'cat' and _cat_lit(b):
        return _cat_bit(w, a, b, or_)
    return not_(w, and_(w, not_(w, a), not_(w, b)))

def disj(w, a, b):
    """a|b with disjoint possible-one masks"""
    ca = a.op == 'cat'; cb = b.op == 'cat'
    if ca or cb:
        r = _cat_bit(w, a, b, _disj2)
        return r
    return xor(w, a, b)

def _disj2(w, a, b):
    if type(a) is int and a == 0: return b
    if type(b) is int and b == 0: return a
    return xor(w, a, b)

# ---------------------------------------------------------------- arithmetic
def add(w, a, b):
    if type(a) is int:
        if type(b) is int: return (a + b) & MASK[w]
        a, b = b, a
    if type(b) is int:
        if b == 0: return a
        if a.op == 'add':
            return _amk(w, (a.a[0] + b) & MASK[w], a.a[1])
        if a.nz & b == 0 and b and a.op == 'cat':
            return or_(w, a, b)
        return _amk(w, b, ((1, a),))
    if a.nz & b.nz == 0:
        return disj(w, a, b)
    return addn(w, 0, ((1, a), (1, b)))

def sub(w, a, b):
    if type(b) is int:
        return add(w, a, (-b) & MASK[w])
    if type(a) is int:
        return addn(w, a, ((MASK[w], b),))
    if a is b: return 0
    return addn(w, 0, ((1, a), (MASK[w], b)))

def neg(w, a): return sub(w, 0, a)

def _amk(w, c, ts):
    if not ts: return c
    if c == 0 and len(ts) == 1 and ts[0][0] == 1: return ts[0][1]
    lab = 0
    hi = c
    for k, t in ts:
        lab |= t.lab; hi += k * t.nz
    nz = MASK[w] if hi > MASK[w] else MASK[hi.bit_length()]
    # common trailing zeros
    tz = c | 0
    for k, t in ts: tz |= k * (t.nz & -t.nz)
    if tz:
        low = (tz & -tz)
        nz &= ~(low - 1)
    else: nz = 0
    nz &= MASK[w]
    return _mk('add', w, (c, ts), nz, lab)

def addn(w, c, terms):
    m = MASK[w]
    d = {}
    for k, t in terms:
        if k == 0: continue
        if type(t) is int:
            c += k * t
        elif t.op == 'add':
            # constants are pulled out; multi-term sums stay opaque so that each
            # program-level sum remains one node of the DAG (needed by forms.py)
            ts = t.a[1]
            if len(ts) == 1:
                c += k * t.a[0]
                k2, t2 = ts[0]
                d[t2] = d.get(t2, 0) + k * k2
            elif t.a[0]:
                c += k * t.a[0]
                t2 = _amk(w, 0, ts)
                d[t2] = d.get(t2, 0) + k
            else: d[t] = d.get(t, 0) + k
        elif t.op == 'xor' and len(t.a[1]) == 1 and t.a[0] == m:
            # ~x = -x-1
            c -= k; t2 = t.a[1][0]
            if t2.op == 'add':
                c -= k * t2.a[0]
                if len(t2.a[1]) == 1:
                    k3, t3 = t2.a[1][0]
                    d[t3] = d.get(t3, 0) - k * k3
                else:
                    t3 = _amk(w, 0, t2.a[1])
                    d[t3] = d.get(t3, 0) - k
            else:
                d[t2] = d.get(t2, 0) - k
        else:
            d[t] = d.get(t, 0) + k
    c &= m
    ts = []
    for t, k in d.items():
        k &= m
        if k: ts.append((k, t))
    if not ts: return c
    if len(ts) > 1:
        ts.sort(key=_key1)
        if c: return _amk(w, c, ((1, _amk(w, 0, tuple(ts))),))   # one node per constant-free sum
    elif c == 0 and ts[0][0] == m and ts[0][1].nz == 1 and w > 1:
        return sext(ext(ts[0][1], 0, 1), 1, w)
    return _amk(w, c, tuple(ts))

def _key1(p): return p[1].id

def mul(w, a, b):
    if type(a) is int:
        if type(b) is int: return (a * b) & MASK[w]
        a, b = b, a
    if type(b) is int:
        if b == 0: return 0
        if b == 1: return a
        if b & (b - 1) == 0:
            return shlc(w, a, b.bit_length() - 1)
        return addn(w, 0, ((b, a),))
    if b.id < a.id: a, b = b, a
    # pull constants / single-coefficient adds out
    if a.op == 'add' and a.a[0] == 0 and len(a.a[1]) == 1:
        k, t = a.a[1][0]
        return mul(w, mul(w, t, b), k)
    if b.op == 'add' and b.a[0] == 0 and len(b.a[1]) == 1:
        k, t = b.a[1][0]
        return mul(w, mul(w, a, t), k)
    # one-bit operand => ite-free masking is left as mul
    p = (a.nz.bit_length() + b.nz.bit_length())
    nz = MASK[min(w, p)]
    return _mk('mul', w, (a, b), nz, a.lab | b.lab)

def udiv(w, a, b):
    if type(b) is int:
        if b and b & (b - 1) == 0: return lshrc(w, a, b.bit_length() - 1)
        if type(a) is int: return a // b if b else MASK[w]
    nz = MASK[nzof(a).bit_length()]
    return _mk('udiv', w, (a, b), nz, lab_of(a) | lab_of(b))

def urem(w, a, b):
    if type(b) is int:
        if b and b & (b - 1) == 0: return and_(w, a, b - 1)
        if type(a) is int: return a % b if b else a
    nz = MASK[min(nzof(a).bit_length(), nzof(b).bit_length())]
    return _mk('urem', w, (a, b), nz, lab_of(a) | lab_of(b))

def s_of(v, w): return v if v < (1 << (w - 1)) else v - (1 << w)

def sdiv(w, a, b):
    if type(a) is int and type(b) is int:
        x = s_of(a, w); y = s_of(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & MASK[w]
    return _mk('sdiv', w, (a, b), MASK[w], lab_of(a) | lab_of(b))

def srem(w, a, b):
    if type(a) is int and type(b) is int:
        x = s_of(a, w); y = s_of(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & MASK[w]
    return _mk('srem', w, (a, b), MASK[w], lab_of(a) | lab_of(b))

def shl(w, a, b):
    if type(b) is int: return shlc(w, a, b)
    if type(a) is int and a == 0: return 0
    return _mk('shl', w, (a, b), MASK[w], lab_of(a) | b.lab)
def lshr(w, a, b):
    if type(b) is int: return lshrc(w, a, b)
    if type(a) is int and a == 0: return 0
    return _mk('lshr', w, (a, b), MASK[nzof(a).bit_length()], lab_of(a) | b.lab)
def ashr(w, a, b):
    if type(b) is int: return ashrc(w, a, b)
    if type(a) is int and a == 0: return 0
    return _mk('ashr', w, (a, b), MASK[w], lab_of(a) | b.lab)

# ---------------------------------------------------------------- compare / ite
def eq(w, a, b):
    if type(a) is int:
        if type(b) is int: return 1 if a == b else 0
        a, b = b, a
    if a is b: return 1
    if type(b) is int:
        if b & ~a.nz: return 0
        if w == 1: return a if b else xor(1, a, 1)
        if a.op == 'add' and a.a[0]: return eq(w, sub(w, a, a.a[0]), (b - a.a[0]) & MASK[w])
        if a.op == 'cat':
            # strip constant pieces
            ps = []; off = 0
            for v, pw in a.a:
                bb = (b >> off) & MASK[pw]; off += pw
                if type(v) is int:
                    if v != bb: return 0
                else: ps.append((v, pw, bb))
            if len(ps) == 1: return eq(ps[0][1], ps[0][0], ps[0][2])
        if a.op == 'ite':
            c, x, y = a.a
            if type(x) is int and type(y) is int:
                ex = x == b; ey = y == b
                if ex and ey: return 1
                if ex: return c
                if ey: return xor(1, c, 1)
                return 0
        if a.op == 'sext':
            x = a.a[0]
            if sext(b & MASK[x.w], x.w, w) != b: return 0
            return eq(x.w, x, b & MASK[x.w])
        if a.op == 'xor' and len(a.a[1]) == 1:
            return eq(w, a.a[1][0], b ^ a.a[0])
        if a.op == 'add' and len(a.a[1]) == 1 and a.a[1][0][0] == 1 and a.a[0]:
            return eq(w, a.a[1][0][1], (b - a.a[0]) & MASK[w])
        return _mk('eq', 1, (a, b), 1, a.lab)
    if b.id < a.id: a, b = b, a
    return _mk('eq', 1, (a, b), 1, a.lab | b.lab)

def ult(w, a, b):
    if type(a) is int and type(b) is int: return 1 if a < b else 0
    if a is b: return 0
    if type(b) is int:
        if b == 0: return 0
        la, ha = rng(a)
        if ha < b: return 1
        if la >= b: return 0
        if b == 1: return eq(w, a, 0)
        if a.op == 'cat' and a.a[-1][0] == 0:      # zero-extended operand: compare at its own width
            n = w - a.a[-1][1]
            if b <= MASK[n]: return ult(n, cat(a.a[:-1]), b)
    if type(a) is int:
        lb, hb = rng(b)
        if a < lb: return 1
        if a >= hb: return 0
        if a == 0: return xor(1, eq(w, b, 0), 1)
        if a < MASK[w]: return xor(1, ult(w, b, a + 1), 1)
    return _mk('ult', 1, (a, b), 1, lab_of(a) | lab_of(b))

def slt(w, a, b):
    if type(a) is int and type(b) is int: return 1 if s_of(a, w) < s_of(b, w) else 0
    if a is b: return 0
    if type(b) is int and b == 0: return ext(a, w - 1, 1)
    if type(a) is int and a == MASK[w]: return xor(1, ext(b, w - 1, 1), 1)
    la, ha = srng_(a, w); lb, hb = srng_(b, w)
    if ha < lb: return 1
    if la >= hb: return 0
    if la >= 0 and lb >= 0: return ult(w, a, b)
    return _mk('slt', 1, (a, b), 1, lab_of(a) | lab_of(b))

def ite(c, a, b, w):
    if type(c) is int: return a if c else b
    if a is b: return a
    ia = type(a) is int; ib = type(b) is int
    if ia and ib:
        if a == b: return a
        if w == 1: return c if a else xor(1, c, 1)
        if b == 0 and a == 1: return cat(((c, 1), (0, w - 1)))
        if a == 0 and b == 1: return cat(((xor(1, c, 1), 1), (0, w - 1)))
        if b == 0 and a == MASK[w]: return sext(c, 1, w)
        if a == 0 and b == MASK[w]: return sext(xor(1, c, 1), 1, w)
    if w == 1:
        if ib: return and_(1, c, a) if b == 0 else or_(1, xor(1, c, 1), a)
        if ia: return and_(1, xor(1, c, 1), b) if a == 0 else or_(1, c, b)
    if c.op == 'xor' and c.a[0] == 1 and len(c.a[1]) == 1:
        c = c.a[1][0]; a, b = b, a
        ia, ib = ib, ia
    if not ia and a.op == 'ite' and a.a[0] is c: return ite(c, a.a[1], b, w)
    if not ib and b.op == 'ite' and b.a[0] is c: return ite(c, a, b.a[2], w)
    return _mk('ite', w, (c, a, b), nzof(a) | nzof(b), c.lab | lab_of(a) | lab_of(b))

def uf(name, w, args):
    lab = 0
    for a in args:
        if type(a) is not int: lab |= a.lab
    return _mk('uf', w, (name, tuple(args)), MASK[w], lab)

# ---------------------------------------------------------------- intervals
def rng(t):
    """unsigned interval"""
    if type(t) is int: return (t, t)
    if t.iv is not None: return t.iv
    t.iv = r = _rng(t)
    return r

def _rng(t):
    op = t.op; w = t.w; m = MASK[w]
    top = (0, MASK[t.nz.bit_length()])
    if op == 'cat':
        lo = hi = 0; off = 0
        for v, pw in t.a:
            l, h = rng(v); lo += l << off; hi += h << off; off += pw
        return (lo, hi)
    if op == 'sym':
        if t.siv is not None and t.siv[0] >= 0: return t.siv
        return top
    if op == 'add':
        c, ts = t.a
        lo = hi = c
        for k, u in ts:
            l, h = rng(u)
            if k > m >> 1:
                k -= m + 1; lo += k * h; hi += k * l
            else:
                lo += k * l; hi += k * h
        if lo >> w == hi >> w:
            return (lo & m, hi & m)
        # try signed for sub-terms
        s = srng(t)
        if s[0] >= 0: return s
        return top
    if op == 'mul':
        a = rng(t.a[0]); b = rng(t.a[1])
        if a[1] * b[1] <= m: return (a[0] * b[0], a[1] * b[1])
        return top
    if op == 'ite':
        a = rng(t.a[1]); b = rng(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'ext':
        x, lo = t.a
        if lo + w == x.w or True:
            l, h = rng(x)
            if h >> (lo + w) == l >> (lo + w):
                return ((l >> lo) & m, (h >> lo) & m) if ((l >> lo) & m) <= ((h >> lo) & m) else top
        return top
    if op == 'udiv':
        a = rng(t.a[0]); b = rng(t.a[1])
        if b[0] > 0: return (a[0] // b[1], a[1] // b[0])
        return top
    if op == 'urem':
        a = rng(t.a[0]); b = rng(t.a[1])
        if b[0] > 0: return (0, min(a[1], b[1] - 1)) if a[1] >= b[0] else a
        return top
    if op == 'and':
        h = m
        for u in t.a: h = min(h, rng(u)[1])
        return (0, min(h, top[1]))
    if op == 'lshr':
        return (0, rng(t.a[0])[1])
    if op == 'sext':
        s = srng(t.a[0])
        if s[0] >= 0: return s
        if s[1] < 0: return (s[0] & m, s[1] & m)
        return top
    return top

def srng_(t, w):
    if type(t) is int:
        s = s_of(t, w); return (s, s)
    return srng(t)

def srng(t):
    """signed interval of a T"""
    if t.siv is not None: return t.siv
    t.siv = (-(1 << (t.w - 1)), (1 << (t.w - 1)) - 1)   # guard against recursion
    t.siv = r = _srng(t)
    return r

def _srng(t):
    op = t.op; w = t.w; H = 1 << (w - 1)
    full = (-H, H - 1)
    if op == 'sext': return srng(t.a[0])
    if op == 'ite':
        a = srng_(t.a[1], w); b = srng_(t.a[2], w)
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'add':
        c, ts = t.a
        lo = hi = s_of(c, w)
        for k, u in ts:
            k = s_of(k, w)
            l, h = srng(u)
            if k < 0: lo += k * h; hi += k * l
            else: lo += k * l; hi += k * h
        if -H <= lo and hi < H: return (lo, hi)
        return full
    if op == 'mul':
        a = srng(t.a[0]); b = srng(t.a[1])
        ps = [x * y for x in a for y in b]
        if min(ps) >= -H and max(ps) < H: return (min(ps), max(ps))
        return full
    if op == 'ext':
        x, lo = t.a
        if lo + w == x.w:
            l, h = srng(x)
            return (l >> lo, h >> lo)
        if lo == 0:
            l, h = srng(x)
            if -H <= l and h < H: return (l, h)
        else:
            l, h = srng(x)
            l >>= lo; h >>= lo
            if -H <= l and h < H: return (l, h)
        l, h = rng(t)
        return (l, h) if h < H else full
    if op == 'cat':
        v, pw = t.a[-1]
        if type(v) is int:
            l, h = rng(t)
            if h < H: return (l, h)
            if l >= H: return (l - 2 * H, h - 2 * H)
            return full
        sl, sh = srng(v)
        off = w - pw
        lo = (sl << off); hi = (sh << off)
        o = 0
        for u, uw in t.a[:-1]:
            l, h = rng(u); lo += l << o; hi += h << o; o += uw
        return (lo, hi)
    if op == 'sym':
        if t.iv is not None:
            l, h = t.iv
            if h < H: return (l, h)
            if l >= H: return (l - 2 * H, h - 2 * H)
        return full if t.nz >> (w - 1) & 1 else (0, MASK[t.nz.bit_length()])
    l, h = rng(t)
    if h < H: return (l, h)
    return full

# ---------------------------------------------------------------- utilities
def show(t, depth=4):
    if type(t) is int: return hex(t) if t > 9 else str(t)
    if t.op == 'sym': return t.a[0]
    if depth == 0: return '#%d' % t.id
    d = depth - 1
    if t.op == 'cat': return 'cat(' + ','.join('%s:%d' % (show(v, d), w) for v, w in t.a) + ')'
    if t.op == 'ext': return '%s[%d+%d]' % (show(t.a[0], d), t.a[1], t.w)
    if t.op == 'xor': return 'xor(%x;%s)' % (t.a[0], ','.join(show(u, d) for u in t.a[1]))
    if t.op == 'add': return 'add%d(%d;%s)' % (t.w, t.a[0], ','.join('%d*%s' % (s_of(k, t.w), show(u, d)) for k, u in t.a[1]))
    if t.op == 'uf': return '%s(...%d)' % (t.a[0], len(t.a[1]))
    return '%s%d(%s)' % (t.op, t.w, ','.join(show(u, d) if type(u) in (int, T) else str(u) for u in t.a))

def children(t):
    op = t.op
    if op == 'cat': return [v for v, w in t.a if type(v) is not int]
    if op == 'xor': return list(t.a[1])
    if op == 'add': return [u for k, u in t.a[1]]
    if op == 'ext': return [t.a[0]]
    if op == 'sym': return []
    if op == 'uf': return [u for u in t.a[1] if type(u) is not int]
    return [u for u in t.a if type(u) is not int]

def topo(roots, stop=None):
    """nodes in dependency order (children first), iterative"""
    seen = set(); out = []
    st = [(r, False) for r in roots if type(r) is not int]
    while st:
        t, done = st.pop()
        if done:
            out.append(t); continue
        if t in seen: continue
        seen.add(t)
        st.append((t, True))
        if stop is not None and t in stop: continue
        for c in children(t):
            if c not in seen: st.append((c, False))
    return out

def rebuild(t, ch):
    """rebuild node t with children mapped through function ch"""
    op = t.op; w = t.w
    if op == 'sym': return t
    if op == 'cat': return cat([(v if type(v) is int else ch(v), pw) for v, pw in t.a])
    if op == 'ext': return ext(ch(t.a[0]), t.a[1], w)
    if op == 'sext': return sext(ch(t.a[0]), t.a[0].w, w)
    if op == 'xor': return xorn(w, t.a[0], [ch(u) for u in t.a[1]])
    if op == 'and':
        r = MASK[w]
        for u in t.a: r = and_(w, r, ch(u))
        return r
    if op == 'add': return addn(w, t.a[0], [(k, ch(u)) for k, u in t.a[1]])
    g = [u if type(u) is int else ch(u) for u in t.a] if op != 'uf' else None
    if op == 'mul': return mul(w, *g)
    if op == 'ite': return ite(g[0], g[1], g[2], w)
    if op in ('eq', 'ult', 'slt'):
        ww = t.a[0].w if type(t.a[0]) is not int else t.a[1].w
        return {'eq': eq, 'ult': ult, 'slt': slt}[op](ww, g[0], g[1])
    if op == 'uf': return uf(t.a[0], w, [u if type(u) is int else ch(u) for u in t.a[1]])
    return {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](w, g[0], g[1])

def subst(t, m, memo=None):
    """substitute T->value map m"""
    if type(t) is int: return t
    if memo is None: memo = {}
    for k, v in m.items(): memo.setdefault(k, v)
    for n in topo([t], stop=memo):
        if n not in memo:
            memo[n] = rebuild(n, lambda u: memo[u])
    return memo[t]

def syms(roots):
    return [t for t in topo(roots) if t.op == 'sym']

def evaluate(roots, env, memo=None, ufun=None):
    """concrete evaluation: env: sym T -> int. ufun(name, args)->int. returns list"""
    if memo is None: memo = {}
    def g(u): return u if type(u) is int else memo[u]
    for t in topo(roots, stop=memo):
        if t in memo: continue
        op = t.op; w = t.w; m = MASK[w]
        if op == 'sym': v = env[t] if not callable(env) else env(t)
        elif op == 'cat':
            v = 0; off = 0
            for p, pw in t.a: v |= g(p) << off; off += pw
        elif op == 'ext': v = (memo[t.a[0]] >> t.a[1]) & m
        elif op == 'sext': v = sext(memo[t.a[0]], t.a[0].w, w)
        elif op == 'xor':
            v = t.a[0]
            for u in t.a[1]: v ^= memo[u]
        elif op == 'and':
            v = m
            for u in t.a: v &= memo[u]
        elif op == 'add':
            v = t.a[0]
            for k, u in t.a[1]: v += k * memo[u]
            v &= m
        elif op == 'mul': v = (g(t.a[0]) * g(t.a[1])) & m
        elif op == 'ite': v = g(t.a[1]) if g(t.a[0]) else g(t.a[2])
        elif op == 'eq': v = 1 if g(t.a[0]) == g(t.a[1]) else 0
        elif op == 'ult': v = 1 if g(t.a[0]) < g(t.a[1]) else 0
        elif op == 'slt':
            ww = t.a[0].w if type(t.a[0]) is not int else t.a[1].w
            v = 1 if s_of(g(t.a[0]), ww) < s_of(g(t.a[1]), ww) else 0
        elif op == 'uf': v = ufun(t.a[0], [g(u) for u in t.a[1]])
        elif op in ('shl', 'lshr', 'ashr'):
            v = {'shl': shlc, 'lshr': lshrc, 'ashr': ashrc}[op](w, g(t.a[0]), min(g(t.a[1]), w))
        else:
            v = {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](w, g(t.a[0]), g(t.a[1]))
        memo[t] = v
    return [g(r) for r in roots]
