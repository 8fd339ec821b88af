"""Solver layer.  Every verdict used by a check comes from here.

Two encodings of a term DAG are generated:
  * LIA  - every node is an integer congruent to the bit-vector value modulo 2^w; wrap-around,
           truncation and shifts become quotient variables.  Decides multiply/reduce kernels quickly.
  * BV   - plain QF_BV, used for bit manipulation and as a fall-back.
An answer of 'unknown' (time-out) is never treated as success.
"""
import time, os
import z3
from . import terms as tm
from .terms import T, MASK, rng, srng, srng_, topo, children, s_of

class Stats:
    def __init__(self): self.reset()
    def reset(self):
        self.queries = 0; self.time = 0.0; self.unknown = 0; self.sat = 0; self.by = {}
    def add(self, kind, t, res):
        self.queries += 1; self.time += t
        b = self.by.setdefault(kind, [0, 0.0]); b[0] += 1; b[1] += t
        if res == 'unknown': self.unknown += 1
        if res == 'sat': self.sat += 1
    def dump(self): return dict(queries=self.queries, solver_s=round(self.time, 3), unknown=self.unknown, sat=self.sat, by={k: list(v) for k, v in self.by.items()})
    def merge(self, d):
        self.queries += d['queries']; self.time += d['solver_s']; self.unknown += d['unknown']; self.sat += d['sat']
        for k, (n, t) in d['by'].items():
            b = self.by.setdefault(k, [0, 0.0]); b[0] += n; b[1] += t

STATS = Stats()

class NoLia(Exception): pass

def pkey(t):
    """canonical key of a product of two sign-extended (or plain) narrow values, or None"""
    x, y = t.a
    if type(x) is int or type(y) is int: return None
    w = t.w
    if w > 16 and w % 2 == 0:
        h = w // 2
        u = tm.ext(x, 0, h); v = tm.ext(y, 0, h)
        if type(u) is not T or type(v) is not T: return None
        if tm.sext(u, h, w) is not x or tm.sext(v, h, w) is not y: return None
        x, y = u, v
    if x.id > y.id: x, y = y, x
    return ('P', x, y)

class Lia:
    """leaf: dict key -> (z3 Int, lo, hi); key is a node or ('P',u,v)"""
    def __init__(self, leaf):
        self.leaf = leaf; self.pl = set(k for k in leaf if type(k) is tuple); self.cons = []; self.memo = {}; self.n = 0; self.bm = {}; self.qm = {}; self.um = {}; self.sm = {}
        for e, lo, hi in leaf.values(): self.cons += [e >= lo, e <= hi]
    def var(self, lo, hi):
        self.n += 1
        v = z3.Int('k%d' % self.n)
        self.cons += [v >= lo, v <= hi]
        return v
    def quot(self, r, k):
        """r = 2^k*h + l ; returns (h, l) representations"""
        e, lo, hi = r
        m = 1 << k
        key = (e.get_id() if not isinstance(e, int) else ('c', e), k)
        x = self.qm.get(key)
        if x is not None: return x
        if isinstance(e, int): x = ((e >> k,) * 3, (e & (m - 1),) * 3)
        elif lo >> k == hi >> k:
            h = lo >> k; x = ((h, h, h), (e - h * m, lo - h * m, hi - h * m))
        else:
            h = self.var(lo >> k, hi >> k)
            l = e - m * h
            self.cons += [l >= 0, l < m]
            x = ((h, lo >> k, hi >> k), (l, 0, m - 1))
        self.qm[key] = x
        return x
    def uns(self, n, w):
        if type(n) is int: return (n, n, n)
        x = self.um.get(n)
        if x is None:
            r = self.rep(n)
            x = self.um[n] = r if (r[1] >= 0 and r[2] <= MASK[w]) else self.quot(r, w)[1]
        return x
    def sgn(self, n, w):
        if type(n) is int: s = s_of(n, w); return (s, s, s)
        x = self.sm.get(n)
        if x is None:
            r = self.rep(n); H = 1 << (w - 1)
            if -H <= r[1] and r[2] < H: x = r
            else:
                l = self.quot((r[0] + H, r[1] + H, r[2] + H), w)[1]
                x = (l[0] - H, l[1] - H, l[2] - H)
            self.sm[n] = x
        return x
    def rep(self, n):
        if type(n) is int: return (n, n, n)
        r = self.memo.get(n)
        if r is None:
            st = set(self.memo); st.update(k for k in self.leaf if type(k) is T)
            for m in (_topo_p([n], st, self.pl) if self.pl else topo([n], stop=st)):
                if m not in self.memo: self.memo[m] = self._rep(m)
            r = self.memo[n]
        return r
    def topo_stop(self): return self.leaf
    def _rep(self, n):
        l = self.leaf.get(n)
        if l is not None: return l
        op = n.op; w = n.w
        if op == 'sext': return self.sgn(n.a[0], n.a[0].w)
        if op == 'cat':
            e = 0; lo = hi = 0; off = 0
            last = len(n.a) - 1
            for i, (v, pw) in enumerate(n.a):
                r = self.uns(v, pw) if i != last else ((v, v, v) if type(v) is int else self.rep(v))
                e = e + r[0] * (1 << off); lo += r[1] << off; hi += r[2] << off; off += pw
            return (e, lo, hi)
        if op == 'add':
            c, ts = n.a
            c = s_of(c, w); e = c; lo = hi = c
            for k, u in ts:
                k = s_of(k, w); r = self.rep(u)
                e = e + k * r[0]
                if k >= 0: lo += k * r[1]; hi += k * r[2]
                else: lo += k * r[2]; hi += k * r[1]
            if hi - lo > 1 << (2 * w + 8): raise NoLia('range')
            return (e, lo, hi)
        if op == 'mul':
            p = pkey(n)
            if p is not None and p in self.leaf: return self.leaf[p]
            raise NoLia('mul')
        if op == 'ext':
            x, lo = n.a
            if x.op in ('and', 'xor', 'ite') and x not in self.leaf:
                if w <= 16: return self.bits(n)
                raise NoLia('ext ' + x.op)
            r = self.rep(x)
            if lo == 0: return r
            return self.quot(r, lo)[0]
        if op == 'ite':
            a = self.rep(n.a[1]) if type(n.a[1]) is not int else (n.a[1],) * 3
            b = self.rep(n.a[2]) if type(n.a[2]) is not int else (n.a[2],) * 3
            return (z3.If(self.bool(n.a[0]), _z(a[0]), _z(b[0])), min(a[1], b[1]), max(a[2], b[2]))
        if w == 1 or op in ('eq', 'ult', 'slt'):
            return (z3.If(self.bool(n), z3.IntVal(1), z3.IntVal(0)), 0, 1)
        if op == 'xor' and len(n.a[1]) == 1 and n.a[0] == MASK[w]:
            r = self.rep(n.a[1][0]); return (-1 - r[0], -1 - r[2], -1 - r[1])
        if op == 'and' and len(n.a) == 2:
            for s, x in (n.a, n.a[::-1]):
                if s.op == 'sext' and s.a[0].w == 1:
                    r = self.rep(x)
                    return (z3.If(self.bool(s.a[0]), _z(r[0]), z3.IntVal(0)), min(0, r[1]), max(0, r[2]))
        if op in ('udiv', 'urem') and type(n.a[1]) is int and n.a[1] > 0 and type(n.a[0]) is not int:
            d = n.a[1]; u = self.uns(n.a[0], w)
            key = ('d', n.a[0], d)
            x = self.qm.get(key)
            if x is None:
                h = self.var(u[1] // d, u[2] // d); l = u[0] - d * h
                self.cons += [l >= 0, l < d]
                x = self.qm[key] = ((h, u[1] // d, u[2] // d), (l, 0, d - 1))
            return x[0] if op == 'udiv' else x[1]
        if op in ('and', 'xor') and w <= 16: return self.bits(n)
        raise NoLia(op)
    def bits(self, n):
        e = 0
        for i in range(n.w):
            b = self.bit(n, i)
            if b is False: continue
            e = e + (z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)) if b is not True else (1 << i))
        return (e, 0, MASK[n.w])
    def bool(self, n):
        if type(n) is int: return z3.BoolVal(bool(n))
        b = self.bm.get(n)
        if b is None: b = self.bm[n] = self._bool(n)
        return b
    def _bool(self, n):
        op = n.op
        if n in self.leaf: return _z(self.leaf[n][0]) != 0
        if op == 'eq':
            a, b = n.a; w = n.a[0].w if type(n.a[0]) is not int else n.a[1].w
            return _z(self.uns(a, w)[0]) == _z(self.uns(b, w)[0])
        if op == 'ult':
            a, b = n.a; w = a.w if type(a) is not int else b.w
            return _z(self.uns(a, w)[0]) < _z(self.uns(b, w)[0])
        if op == 'slt':
            a, b = n.a; w = a.w if type(a) is not int else b.w
            return _z(self.sgn(a, w)[0]) < _z(self.sgn(b, w)[0])
        b = self.bit(n, 0)
        return z3.BoolVal(b) if isinstance(b, bool) else b
    def bit(self, n, i):
        if type(n) is int: return bool((n >> i) & 1)
        op = n.op
        if n in self.leaf: return self._nbit(n, i)
        if n.w == 1 and op in ('eq', 'ult', 'slt'): return self.bool(n)
        if op == 'and': return z3.And([_b(self.bit(u, i)) for u in n.a])
        if op == 'xor':
            r = bool((n.a[0] >> i) & 1)
            for u in n.a[1]:
                b = self.bit(u, i)
                r = z3.Xor(_b(r), _b(b)) if r is not False else b
            return r
        if op == 'cat':
            off = 0
            for v, pw in n.a:
                if i < off + pw: return self.bit(v, i - off)
                off += pw
        if op == 'ext':
            return self.bit(n.a[0], n.a[1] + i)
        if op == 'sext': return self.bit(n.a[0], min(i, n.a[0].w - 1))
        if op == 'ite': return z3.If(self.bool(n.a[0]), _b(self.bit(n.a[1], i)), _b(self.bit(n.a[2], i)))
        return self._nbit(n, i)
    def _nbit(self, n, i):
        r = self.rep(n)
        l = self.quot(r, i + 1)[1] if not (r[1] >= 0 and r[2] < 2 << i) else r
        return _z(l[0]) >= (1 << i)

def _z(x): return z3.IntVal(x) if isinstance(x, int) else x
def _b(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def solve(cons, timeout=20, kind='lia', logic=None):
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(*cons)
    t = time.time()
    r = str(s.check())
    STATS.add(kind, time.time() - t, r)
    return r, (s.model() if r == 'sat' else None)

# ------------------------------------------------------------------ BV
class Bv:
    def __init__(self, leaf=None):
        self.memo = dict(leaf or {}); self.syms = {}; self.ufs = {}
    def g(self, u, w):
        return z3.BitVecVal(u, w) if type(u) is int else self.memo[u]
    def tr(self, t, w=None):
        if type(t) is int: return z3.BitVecVal(t, w)
        for n in topo([t], stop=self.memo):
            if n not in self.memo: self.memo[n] = self._tr(n)
        return self.memo[t]
    def _tr(self, n):
        op = n.op; w = n.w; g = self.g
        if op == 'sym':
            v = z3.BitVec('%s#%d' % (n.a[0], n.id), w); self.syms[n] = v
            return v
        if op == 'cat':
            ps = [g(v, pw) for v, pw in reversed(n.a)]
            return z3.Concat(*ps)
        if op == 'ext': return z3.Extract(n.a[1] + w - 1, n.a[1], g(n.a[0], 0))
        if op == 'sext': return z3.SignExt(w - n.a[0].w, g(n.a[0], 0))
        if op == 'xor':
            r = z3.BitVecVal(n.a[0], w) if n.a[0] else None
            for u in n.a[1]: r = g(u, w) if r is None else r ^ g(u, w)
            return r
        if op == 'and':
            r = g(n.a[0], w)
            for u in n.a[1:]: r = r & g(u, w)
            return r
        if op == 'add':
            r = z3.BitVecVal(n.a[0], w)
            for k, u in n.a[1]:
                x = g(u, w)
                r = r + x if k == 1 else r - x if k == MASK[w] else r + z3.BitVecVal(k, w) * x
            return r
        if op == 'ite': return z3.If(g(n.a[0], 1) == 1, g(n.a[1], w), g(n.a[2], w))
        if op in ('eq', 'ult', 'slt'):
            a, b = n.a; ww = a.w if type(a) is not int else b.w
            x = g(a, ww); y = g(b, ww)
            c = x == y if op == 'eq' else z3.ULT(x, y) if op == 'ult' else x < y
            return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == 'uf':
            args = [g(u, u.w if type(u) is not int else 64) for u in n.a[1]]
            key = (n.a[0], tuple(x.size() for x in args), w)
            f = self.ufs.get(key)
            if f is None:
                f = self.ufs[key] = z3.Function('%s_%d' % (n.a[0], len(self.ufs)), *([z3.BitVecSort(x.size()) for x in args] + [z3.BitVecSort(w)]))
            return f(*args)
        a, b = g(n.a[0], w), g(n.a[1], w)
        return {'mul': lambda: a * b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b),
                'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b), 'shl': lambda: a << b,
                'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[op]()

def bv_check(conds, timeout=30, kind='bv', ranges=()):
    """conds: 1-bit terms; satisfiable? returns (result, env) env: sym->int"""
    cs = []
    b = Bv()
    for c in conds:
        if type(c) is int:
            if not c: return 'unsat', None
            continue
        cs.append(b.tr(c) == 1)
    if not cs: return 'sat', {}
    for n, v in list(b.syms.items()):
        if n.iv is not None and n.iv != (0, MASK[n.w]):
            cs += [z3.UGE(v, n.iv[0]), z3.ULE(v, n.iv[1])]
        elif n.siv is not None and n.siv != (-(1 << (n.w - 1)), (1 << (n.w - 1)) - 1):
            cs += [v >= n.siv[0], v <= n.siv[1]]
        if n.nz != MASK[n.w]: cs.append(v & (MASK[n.w] ^ n.nz) == 0)
    r, m = solve(cs, timeout, kind, 'QF_UFBV' if b.ufs else 'QF_BV')
    if r != 'sat': return r, None
    env = {n: m.eval(v, model_completion=True).as_long() for n, v in b.syms.items()}
    return r, env

def _small(x, memo, limit=300):
    r = memo.get(x)
    if r is None:
        seen = {x}; st = [x]
        while st and len(seen) <= limit:
            for c in tm.children(st.pop()):
                if c not in seen: seen.add(c); st.append(c)
        r = memo[x] = len(seen) <= limit
    return r

def differ(pairs, timeout=60):
    """one query: can any of the pairs (a, b) take different values?"""
    b = Bv(); ds = []
    big = {}
    for x, y in pairs:
        if type(x) is int and type(y) is int:
            if x != y: return 'sat'
            continue
        if x is y and x.op != 'sym' and not _small(x, big):
            # both sides are the same large expression: an arbitrary value stands for it
            b.memo.setdefault(x, z3.BitVec('big#%d' % x.id, x.w))
        w = x.w if type(x) is T else y.w
        zx = b.tr(x) if type(x) is T else z3.BitVecVal(x, w)
        zy = b.tr(y) if type(y) is T else z3.BitVecVal(y, w)
        ds.append(zx != zy)
    if not ds: return 'unsat'
    r, m = solve([z3.Or(*ds)], timeout, 'outputs-equal', 'QF_UFBV' if b.ufs else 'QF_BV')
    return r

class Ctx:
    """feasibility oracle for path conditions: first over a bounded neighbourhood of the conditions (everything further away
    arbitrary within its range), then exactly; an undecided condition counts as feasible"""
    def __init__(self, timeout=20): self.timeout = timeout; self.memo = {}; self.assume = []; self.slow = 0
    def feasible(self, conds):
        conds = related(conds)
        k = frozenset(c for c in conds if type(c) is not int)
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = self._feasible(list(conds) + self.assume)
        return r
    def _feasible(self, conds):
        big, cs = cut(conds, 400)
        if big:
            if near(conds) == 'unsat': return False
            if bv_check(cs, 10, 'feas')[0] == 'unsat': return False
            if self.slow > 2 or cut(conds, 2500)[0]: return True
        t0 = time.time()
        x, _ = bv_check(conds, min(self.timeout, 5) if big else self.timeout, 'feas')
        if time.time() - t0 > 3: self.slow += 1
        return x != 'unsat'

_sup = {}
def support(t, limit=3000):
    """symbols (and uninterpreted functions) of a term, or None if it is large"""
    r = _sup.get(t.id, 0)
    if r == 0:
        seen = {t}; q = [t]
        while q and len(seen) < limit:
            for c in tm.children(q.pop()):
                if c not in seen: seen.add(c); q.append(c)
        r = _sup[t.id] = None if q else frozenset(x.id if x.op == 'sym' else str(x.a[0]) for x in seen if x.op in ('sym', 'uf'))
    return r

def related(conds):
    """the conditions connected to the last one by shared symbols; the earlier ones were satisfiable on their own"""
    if len(conds) < 6 or type(conds[-1]) is not T: return conds
    cs = [c for c in conds[:-1] if type(c) is T]
    S = support(conds[-1])
    if S is None: return conds
    S = set(S); out = []; todo = [(c, support(c)) for c in cs]; ch = True
    while ch:
        ch = False; rest = []
        for c, s in todo:
            if s is None or not S.isdisjoint(s): out.append(c); S |= s or set(); ch = True
            else: rest.append((c, s))
        todo = rest
    return [c for c in conds if type(c) is int] + [c for c in cs if c in set(out)] + [conds[-1]]

_near = {}
def near(conds, limit=60):
    """'unsat' if the conditions contradict each other already over their near neighbourhood, else None; answers are shared
    between conditions of the same structure and leaf ranges"""
    cs = cut(conds, limit)[1]
    if any(type(c) is int and not c for c in cs): return 'unsat'
    cs = [c for c in cs if type(c) is T]
    if not cs: return None
    try: key = alpha(cs, [])
    except Exception: key = None
    r = _near.get(key, 0) if key is not None else 0
    if r == 0:
        r = 'unsat' if bv_check(cs, 5, 'near')[0] == 'unsat' else None
        if key is not None: _near[key] = r
    return r

def cut(roots, limit):
    """(cut anything?, roots with all but the nearest nodes replaced by symbols of the same range)"""
    seen = set(r for r in roots if type(r) is T); q = list(seen); i = 0
    while i < len(q) and len(seen) < limit:
        for c in tm.children(q[i]):
            if c not in seen: seen.add(c); q.append(c)
        i += 1
    if i >= len(q): return False, roots
    m = {}
    inner = set(q[:i])
    for n in q[i:]:
        if n.op != 'sym': m[n] = tm.sym('cut!%d' % len(m), n.w, n.lab, nz=n.nz, rng=tm.rng(n), srng=tm.srng(n))
    memo = {}
    return True, [tm.subst(r, m, memo) if type(r) is T else r for r in roots]

# ------------------------------------------------------------------ alpha keys
def alpha(roots, leaves):
    """structure of the cone of roots over leaves (list of node or ('P',u,v)), independent of node identity and of the
    order of commutative operands"""
    loc = {}; out = []
    for i, l in enumerate(leaves): loc[l] = i
    base = len(leaves); n = 0
    stop = set(l for l in leaves if type(l) is T)
    plv = [l for l in leaves if type(l) is tuple]
    if plv: order = _topo_p(roots, stop, set(plv))
    else: order = topo(roots, stop=stop)
    h = {}
    for l, i in loc.items(): h[l] = hash(('leaf', i))
    def hr(u): return u if type(u) is int else h[u]
    com = {}
    for t in order:
        if t in h: continue
        if t.op == 'mul' and plv:
            p = pkey(t)
            if p in loc: h[t] = hash(('pm', t.w, loc[p])); continue
        op = t.op
        if op == 'sym': e = ('sym', t.w, t.nz, t.iv, t.siv)
        elif op == 'cat': e = ('cat',) + tuple((hr(v), pw) for v, pw in t.a)
        elif op == 'ext': e = ('ext', t.w, hr(t.a[0]), t.a[1])
        elif op == 'sext': e = ('sext', t.w, hr(t.a[0]))
        elif op == 'xor':
            com[t] = sorted(t.a[1], key=h.__getitem__) if len(t.a[1]) > 1 else t.a[1]
            e = ('xor', t.w, t.a[0]) + tuple(h[u] for u in com[t])
        elif op == 'add':
            com[t] = sorted(t.a[1], key=lambda q: (q[0], h[q[1]])) if len(t.a[1]) > 1 else t.a[1]
            e = ('add', t.w, t.a[0]) + tuple((k, h[u]) for k, u in com[t])
        elif op == 'uf': e = ('uf', t.w, t.a[0]) + tuple(hr(u) for u in t.a[1])
        elif op in ('and', 'eq', 'mul'):
            com[t] = sorted(t.a, key=lambda u: (type(u) is not int, hr(u)))
            e = (op, t.w) + tuple(hr(u) for u in com[t])
        else: e = (op, t.w) + tuple(hr(u) for u in t.a)
        h[t] = hash(e)
    def ref(u): return u if type(u) is int else ('n', loc[u])
    def kids(t):
        c = com.get(t)
        if c is None: return [u for u in tm.children(t)]
        if t.op == 'add': return [u for k, u in c]
        return [u for u in c if type(u) is not int]
    st = [(r, False) for r in reversed(roots) if type(r) is not int]
    while st:
        t, done = st.pop()
        if t in loc: continue
        if not done:
            st.append((t, True))
            if t.op == 'mul' and plv and pkey(t) in loc: continue
            for u in reversed(kids(t)):
                if u not in loc: st.append((u, False))
            continue
        op = t.op; c = com.get(t)
        if op == 'mul' and plv:
            p = pkey(t)
            if p in loc:
                loc[t] = base + n; n += 1; out.append(('pm', t.w, loc[p])); continue
        if op == 'sym': e = ('sym', t.w, t.nz, t.iv, t.siv)
        elif op == 'cat': e = ('cat',) + tuple((ref(v), pw) for v, pw in t.a)
        elif op == 'ext': e = ('ext', t.w, ref(t.a[0]), t.a[1])
        elif op == 'sext': e = ('sext', t.w, ref(t.a[0]))
        elif op == 'xor': e = ('xor', t.w, t.a[0]) + tuple(ref(u) for u in c)
        elif op == 'add': e = ('add', t.w, t.a[0]) + tuple((k, ref(u)) for k, u in c)
        elif op == 'uf': e = ('uf', t.w, t.a[0]) + tuple(ref(u) for u in t.a[1])
        else: e = (op, t.w) + tuple(ref(u) for u in (t.a if c is None else c))
        loc[t] = base + n; n += 1
        out.append(e)
    return (tuple(l.w if type(l) is T else ('P', l[1].w, l[2].w) for l in leaves), tuple(out), tuple(ref(r) for r in roots))

def _topo_p(roots, stop, ps):
    seen = set(); out = []
    st = [(r, False) for r in roots if type(r) is not int]
    while st:
        t, done = st.pop()
        if done: out.append(t); continue
        if t in seen: continue
        seen.add(t); st.append((t, True))
        if t in stop or (t.op == 'mul' and pkey(t) in ps): continue
        for c in children(t):
            if c not in seen: st.append((c, False))
    return out

class ATerm: pass

def unalpha(key):
    """rebuild terms from an alpha key: returns (leaves, roots); P leaves become mul nodes of fresh syms"""
    lw, nodes, roots = key
    vals = []
    leaves = []
    for i, w in enumerate(lw):
        if type(w) is tuple:
            u = tm.sym('Lu%d' % i, w[1]); v = tm.sym('Lv%d' % i, w[2])
            if u.id > v.id: u, v = v, u
            leaves.append(('P', u, v)); vals.append(None)
        else:
            s = tm.sym('L%d_%d' % (i, w), w); leaves.append(s); vals.append(s)
    def g(r): return r if type(r) is int else vals[r[1]]
    for e in nodes:
        op = e[0]
        if op == 'pm':
            p = leaves[e[2]]; w = e[1]
            if w == p[1].w: v = tm.mul(w, p[1], p[2])
            else: v = tm.mul(w, tm.sext(p[1], p[1].w, w), tm.sext(p[2], p[2].w, w))
        elif op == 'sym': v = tm.sym('S%d_%d_%s_%s_%s' % (len(vals), e[1], e[2], e[3], e[4]), e[1], 0, e[2], e[3], e[4])
        elif op == 'cat': v = tm.cat([(g(x), pw) for x, pw in e[1:]])
        elif op == 'ext': v = tm.ext(g(e[2]), e[3], e[1])
        elif op == 'sext': v = tm.sext(g(e[2]), g(e[2]).w, e[1])
        elif op == 'xor': v = tm.xorn(e[1], e[2], [g(x) for x in e[3:]])
        elif op == 'add': v = tm.addn(e[1], e[2], [(k, g(x)) for k, x in e[3:]])
        elif op == 'uf': v = tm.uf(e[2], e[1], [g(x) for x in e[3:]])
        elif op == 'and':
            v = MASK[e[1]]
            for x in e[2:]: v = tm.and_(e[1], v, g(x))
        elif op == 'ite': v = tm.ite(g(e[2]), g(e[3]), g(e[4]), e[1])
        elif op in ('eq', 'ult', 'slt'):
            a = g(e[2]); b = g(e[3]); ww = a.w if type(a) is not int else b.w
            v = {'eq': tm.eq, 'ult': tm.ult, 'slt': tm.slt}[op](ww, a, b)
        else:
            v = getattr(tm, op)(e[1], g(e[2]), g(e[3]))
        vals.append(v)
    return leaves, [g(r) for r in roots]
