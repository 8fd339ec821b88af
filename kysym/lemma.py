"""Lemmas: closed statements about small term cones, discharged by the solver.

A lemma is a picklable tuple; cones are stored as alpha keys (see smt.alpha), so that equal lemmas
from different places are solved once.

  ('aff', key, ranges, coefs, d, lo, hi, q)   for all leaf values in ranges:
        signed(root) = sum coefs*leaf + d (mod q)  and  lo <= signed(root) <= hi
  ('eq',  key, ranges)                        for all leaf values: root0 = root1
"""
import time, random
import numpy as np
import z3
from . import terms as tm
from . import smt
from .terms import T, MASK, topo, s_of

U = np.uint64
def np_eval(roots, leaves, vals, n):
    """vectorised evaluation (hints only); vals: int64 arrays of signed or unsigned leaf values"""
    memo = {}
    pm = {}
    for l, v in zip(leaves, vals):
        v = np.asarray(v, dtype=np.int64)
        if type(l) is tuple: pm[l] = v
        else: memo[l] = v.astype(U) & U(MASK[l.w])
    def M(w): return U(MASK[w])
    def g(u): return np.full(n, u, dtype=U) if type(u) is int else memo[u]
    def sg(u, w): return (g(u) << U(64 - w)).astype(np.int64) >> np.int64(64 - w)
    order = smt._topo_p(roots, set(memo), set(pm)) if pm else topo(roots, stop=memo)
    for t in order:
        if t in memo: continue
        op = t.op; w = t.w
        if w > 64: raise OverflowError
        if op == 'mul' and pm and smt.pkey(t) in pm: v = pm[smt.pkey(t)].astype(U) & M(w)
        elif op == 'cat':
            v = np.zeros(n, dtype=U); off = 0
            for p, pw in t.a: v = v | (g(p) << U(off)); off += pw
        elif op == 'ext':
            x = t.a[0]
            v = (memo[x] >> U(t.a[1])) & M(w)
        elif op == 'sext': v = sg(t.a[0], t.a[0].w).astype(U) & M(w)
        elif op == 'xor':
            v = np.full(n, t.a[0], dtype=U)
            for u in t.a[1]: v = v ^ memo[u]
        elif op == 'and':
            v = g(t.a[0])
            for u in t.a[1:]: v = v & g(u)
        elif op == 'add':
            v = np.full(n, t.a[0], dtype=U)
            for k, u in t.a[1]: v = v + U(k) * memo[u]
            v = v & M(w)
        elif op == 'mul': v = (g(t.a[0]) * g(t.a[1])) & M(w)
        elif op == 'ite': v = np.where(memo[t.a[0]] != 0, g(t.a[1]), g(t.a[2]))
        elif op == 'eq': v = (g(t.a[0]) == g(t.a[1])).astype(U)
        elif op == 'ult': v = (g(t.a[0]) < g(t.a[1])).astype(U)
        elif op == 'slt':
            ww = t.a[0].w if type(t.a[0]) is not int else t.a[1].w
            v = (sg(t.a[0], ww) < sg(t.a[1], ww)).astype(U)
        elif op == 'udiv':
            b = g(t.a[1]); v = np.where(b == 0, M(w), g(t.a[0]) // np.maximum(b, U(1)))
        elif op == 'urem':
            b = g(t.a[1]); v = np.where(b == 0, g(t.a[0]), g(t.a[0]) % np.maximum(b, U(1)))
        elif op in ('shl', 'lshr', 'ashr'):
            b = g(t.a[1]); bb = np.minimum(b, U(63))
            if op == 'shl': v = np.where(b >= U(w), U(0), (g(t.a[0]) << bb) & M(w))
            elif op == 'lshr': v = np.where(b >= U(w), U(0), g(t.a[0]) >> bb)
            else: v = (sg(t.a[0], w) >> np.minimum(bb, U(w - 1)).astype(np.int64)).astype(U) & M(w)
        else: raise OverflowError(op)
        memo[t] = v
    return [g(r) for r in roots]

def signed_np(v, w):
    return (v << U(64 - w)).astype(np.int64) >> np.int64(64 - w)

def samples(ranges, rnd, maxn=1 << 16):
    """sample columns for the leaves: exhaustive for a single small leaf"""
    if len(ranges) == 1 and ranges[0][1] - ranges[0][0] < maxn:
        return [np.arange(ranges[0][0], ranges[0][1] + 1, dtype=np.int64)]
    n = 6000
    out = []
    for lo, hi in ranges:
        a = rnd.integers(lo, hi + 1, size=n, dtype=np.int64) if hi < 1 << 62 else rnd.integers(0, 1 << 62, size=n)
        ex = np.array([lo, hi, 0 if lo <= 0 <= hi else lo, min(hi, lo + 1), max(lo, hi - 1)], dtype=np.int64)
        a[:5] = ex
        k = rnd.integers(0, 5, size=200); a[5:205] = ex[k]
        out.append(a)
    return out

def discharge(lem, timeout=40):
    """-> ('unsat',None) proved | ('sat', leaf values) | ('unknown', None)"""
    try:
        return _discharge(lem, timeout)
    except z3.Z3Exception as e:
        return ('unknown', 'z3 ' + str(e))

def _discharge(lem, timeout):
    kind, key, ranges = lem[:3]
    leaves, roots = smt.unalpha(key)
    if kind == 'eq' and (roots[0] is roots[1] or (type(roots[0]) is int and roots[0] == roots[1])): return ('unsat', None)
    # LIA attempt
    plan = [(kind_lia, 15), (kind_bv, timeout), (kind_lia, timeout)]
    if kind == 'eq' and all(type(l) is T for l in leaves): plan = [(kind_bv, 5), (kind_lia, 15), (kind_bv, timeout)]
    last = ('unknown', None)
    for f, to in plan:
        try:
            r = f(lem, leaves, roots, ranges, min(to, timeout))
        except smt.NoLia as e:
            last = ('unknown', 'nolia %s' % e); continue
        if r[0] == 'sat':
            if confirm(lem, leaves, roots, r[1]): return r
            last = ('unknown', 'unconfirmed model'); continue
        if r[0] == 'unsat': return r
        last = r
    return last

def kind_lia(lem, leaves, roots, ranges, timeout):
    lv = {}
    zs = []
    for i, (l, (lo, hi)) in enumerate(zip(leaves, ranges)):
        z = z3.Int('v%d' % i); zs.append(z); lv[l] = (z, lo, hi)
    L = smt.Lia(lv)
    if lem[0] == 'aff':
        _, key, _, cs, d, lo, hi, q = lem
        w = roots[0].w
        r = L.sgn(roots[0], w)
        lin = r[0] - sum(c * z for c, z in zip(cs, zs)) - d
        llo = r[1] - sum(max(c * a, c * b) for c, (a, b) in zip(cs, ranges)) - d
        lhi = r[2] - sum(min(c * a, c * b) for c, (a, b) in zip(cs, ranges)) - d
        k = L.var(llo // q - 1, lhi // q + 1)
        bad = z3.Or(r[0] < lo, r[0] > hi, z3.And(lin - q * k >= 1, lin - q * k < q))
        goal = [bad]
    else:
        a, b = roots
        w = a.w if type(a) is T else b.w
        x = L.uns(a, w); y = L.uns(b, w)
        goal = [smt._z(x[0]) != smt._z(y[0])]
    res, m = smt.solve(L.cons + goal, timeout, 'lia-' + lem[0])
    if res == 'sat': return ('sat', [m.eval(z, model_completion=True).as_long() for z in zs])
    return (res, None)

def kind_bv(lem, leaves, roots, ranges, timeout):
    if lem[0] == 'aff':
        _, key, _, cs, d, lo, hi, q = lem
        W = 40
        n = roots[0]
        x = tm.sext(n, n.w, W)
        terms = [(1, x)]; base = 0
        for c, l, (a, b) in zip(cs, leaves, ranges):
            if type(l) is tuple: return ('unknown', 'P leaf')
            terms.append((-c, tm.sext(l, l.w, W)))
            base += max(c * abs(a), c * abs(b))
        base = (base + abs(d) + (1 << n.w)) // q * q + q
        X = tm.addn(W, (base - d) & MASK[W], terms)
        good = tm.and_(1, tm.eq(W, tm.urem(W, X, q), 0), tm.and_(1, tm.xor(1, tm.slt(n.w, n, lo & MASK[n.w]), 1), tm.xor(1, tm.slt(n.w, hi & MASK[n.w], n), 1)))
    else:
        a, b = roots
        w = a.w if type(a) is T else b.w
        good = tm.eq(w, a, b)
    conds = [tm.xor(1, good, 1)]
    for l, (lo, hi) in zip(leaves, ranges):
        if type(l) is tuple: return ('unknown', 'P leaf')
        if lo < 0 or hi <= MASK[l.w] >> 1:
            if lo > -(1 << (l.w - 1)): conds.append(tm.xor(1, tm.slt(l.w, l, lo & MASK[l.w]), 1))
            if hi < MASK[l.w] >> 1: conds.append(tm.xor(1, tm.slt(l.w, hi & MASK[l.w], l), 1))
        else:
            if lo: conds.append(tm.xor(1, tm.ult(l.w, l, lo), 1))
            if hi < MASK[l.w]: conds.append(tm.xor(1, tm.ult(l.w, hi, l), 1))
    res, env = smt.bv_check(conds, timeout, 'bv-' + lem[0])
    if res == 'sat':
        out = []
        for l, (lo, hi) in zip(leaves, ranges):
            v = env.get(l, lo if lo >= 0 else 0)
            if v > hi: v -= 1 << l.w
            out.append(v)
        return ('sat', out)
    return (res, None)

def holds(lem, leaves, roots, vals):
    """concrete evaluation of the lemma at leaf values"""
    r = np_eval(roots, leaves, [np.array([v & ((1 << 63) - 1) if v >= 1 << 63 else v], dtype=np.int64) for v in vals], 1)
    if lem[0] == 'eq': return int(r[0][0]) == int(r[1][0])
    _, key, ranges, cs, d, lo, hi, q = lem
    x = s_of(int(r[0][0]), roots[0].w)
    return lo <= x <= hi and (x - sum(c * v for c, v in zip(cs, vals)) - d) % q == 0

def confirm(lem, leaves, roots, vals):
    try: return not holds(lem, leaves, roots, vals)
    except OverflowError: pass
    env = {}
    for l, v in zip(leaves, vals):
        if type(l) is tuple: return True
        env[l] = v & MASK[l.w]
    for s in tm.syms(roots): env.setdefault(s, 0)
    r = tm.evaluate(roots, env, ufun=lambda n, a: 0)
    if lem[0] == 'eq': return r[0] != r[1]
    return True
