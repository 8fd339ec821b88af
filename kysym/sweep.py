"""Equivalence of two large bit-vector DAGs by sweeping: nodes with equal simulation signatures are proved equal bottom-up and merged."""
import random, time
from . import terms as tm, smt
from .terms import T, MASK

def _env(syms, seed):
    r = random.Random(seed); e = {}
    for s in syms:
        v = r.getrandbits(s.w) & s.nz
        if s.iv: v = s.iv[0] + v % (s.iv[1] - s.iv[0] + 1)
        e[s] = v
    return e

def cut(roots, depth, stop):
    """replace nodes deeper than depth (or in stop) by fresh variables: map node -> variable"""
    m = {}; best = {}
    st = [(r, 0) for r in roots if type(r) is T]
    while st:
        n, d = st.pop()
        if best.get(n, 1 << 30) <= d: continue
        best[n] = d
        if n.op == 'sym': continue
        if d >= depth or (d > 0 and n in stop): m[n] = None; continue
        for c in tm.children(n): st.append((c, d + 1))
    return [n for n in m]

def canon(roots):
    """negations pulled out of conjunctions: (~x & y) -> y ^ (x & y)"""
    new = {}
    def val(x): return new[x] if type(x) is T else x
    def conj(w, x, y):
        for p, q in ((x, y), (y, x)):
            if type(p) is T and p.op == 'xor' and bin(p.a[0]).count('1') * 2 > w:
                return tm.xor(w, q, conj(w, tm.xor(w, p, MASK[w]), q))
        return tm.and_(w, x, y)
    for n in tm.topo([r for r in roots if type(r) is T]):
        if n.op == 'and' and n.w > 1:
            r = MASK[n.w]
            for u in n.a: r = conj(n.w, r, val(u))
            new[n] = r
        elif n.op == 'sym': new[n] = n
        else: new[n] = tm.rebuild(n, val)
    return [val(r) for r in roots]

def equal(pairs, nsim=4, timeout=10):
    """pairs [(impl, spec)] -> ('unsat', None) all equal | ('sat', env) | ('unknown', None)"""
    A = [a for a, b in pairs if type(a) is T]; B = [b for a, b in pairs if type(b) is T]
    cs = canon([x for p in pairs for x in p])
    pairs = [(a, b) for a, b in zip(cs[::2], cs[1::2])]
    A = [a for a, b in pairs if type(a) is T]; B = [b for a, b in pairs if type(b) is T]
    syms = list(tm.syms(A + B))
    envs = [_env(syms, i) for i in range(nsim)]
    nodesA = tm.topo(A); nodesB = tm.topo(B)
    sig = {}
    for nodes in (nodesA, nodesB):
        vals = [tm.evaluate(nodes, e) for e in envs]
        for i, n in enumerate(nodes): sig[n] = (n.w,) + tuple(v[i] for v in vals)
    for a, b in pairs:
        sa = sig[a][1:] if type(a) is T else (a,) * nsim; sb = sig[b][1:] if type(b) is T else (b,) * nsim
        for i, (x, y) in enumerate(zip(sa, sb)):
            if x != y: return 'sat', {str(s.a[0]): v for s, v in envs[i].items()}
    reps = {}; inB = set(nodesB)
    for n in nodesB: reps.setdefault(sig[n], n)
    new = {}; ok = 0; tries = 0; end = time.time() + 150
    front = {n for n in inB if n.op in ('cat', 'ext', 'sym')}
    def val(x): return new[x] if type(x) is T else x
    for n in nodesA:
        if n.op == 'sym' or n in inB: new[n] = n; continue
        x = tm.rebuild(n, val) if any(new[c] is not c for c in tm.children(n)) else n
        if type(x) is T and x not in inB:
            s = sig[n]
            r = reps.get(s)
            inv = None
            if r is None:
                r = reps.get((s[0],) + tuple(v ^ MASK[s[0]] for v in s[1:]))
                if r is not None: inv = r; r = tm.not_(n.w, r)
            if r is not None and r is not x and n.w >= 8 and tries < 400:
                tries += 1
                for depth, stop in ((1 << 20, front), (4, inB), (8, front)):
                    cs = cut([x, r], depth, stop)
                    cs = [c for c in cs if c is not r and c is not inv]
                    mm = {c: tm.sym('cut#%d' % c.id, c.w) for c in cs}
                    memo = {}
                    xa, ra = tm.subst(x, mm, memo), tm.subst(r, mm, memo)
                    if xa is ra: x = r; ok += 1; break
                    q, env = smt.bv_check([tm.xor(1, tm.eq(n.w, tm.xor(n.w, xa, ra), 0), 1)], timeout, 'sweep')
                    if q == 'unsat': x = r; ok += 1; break
                    if not cs:
                        if q == 'sat': return 'unknown', {str(t.a[0]): v for t, v in env.items()}
                        break
                    if time.time() > end: return 'unknown', None
                else:
                    if len(tm.topo([x, r])) < 2000:
                        q, env = smt.bv_check([tm.xor(1, tm.eq(n.w, tm.xor(n.w, x, r), 0), 1)], 5, 'sweep-full')
                        if q == 'unsat': x = r
                        elif q == 'sat': return 'unknown', {str(t.a[0]): v for t, v in env.items()}
        new[n] = x
    rest = [(val(a), val(b) if b in new else b) for a, b in [(a, b) for a, b in pairs]]
    rest = [(a, b) for a, b in rest if a is not b and not (type(a) is int and a == b)]
    for a, b in rest[:8]:
        w = a.w if type(a) is T else b.w
        q, env = smt.bv_check([tm.xor(1, tm.eq(w, a, b), 1)], 10, 'sweep-out')
        if q == 'sat': return 'sat', {str(t.a[0]): v for t, v in env.items()}
        if q != 'unsat': return 'unknown', None
    return ('unsat', None) if len(rest) <= 8 else ('unknown', None)
