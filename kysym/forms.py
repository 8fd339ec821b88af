"""Congruence abstraction.

Every formed term n gets (form, lo, hi): signed(n) = form (mod q) and lo <= signed(n) <= hi, where form is a
linear / bilinear polynomial over atoms.  Structural rules cover sums without wrap-around; everything else
(Montgomery, Barrett, conditional subtraction, packing, sampling, compression...) is covered by lemmas
about the smallest cone over one already formed term, which the solver discharges (lemma.py).
"""
import heapq, random
import numpy as np
from . import terms as tm
from . import smt, lemma
from .terms import T, MASK, children, rng, srng, srng_, s_of

Q = 3329

class Atom:
    __slots__ = ('id', 'name', 'term', 'lo', 'hi', 'bits')
    def __repr__(s): return str(s.name)

class Forms:
    def __init__(self, q=Q):
        self.q = q
        self.memo = {}
        self.atoms = []
        self.byname = {}
        self.bitidx = {}        # source node -> list of atoms with bits in it
        self.targets = {}       # canonical form -> (atom id, inverse scale)
        self.tsizes = set()
        self.lemmas = {}        # lemma -> (where) obligations used
        self.afftab = {}        # (alpha key, ranges) -> (coefs, d, lo, hi) or None
        self.eqtab = {}
        self.rnd = np.random.default_rng(1)
        self.prnd = random.Random(1)
        self.fails = {}

    # ---- atoms
    def atom(self, name, term=None, lo=None, hi=None, raw=False):
        """raw: term is matched only by identity (a symbol), otherwise also through its bits"""
        a = Atom(); a.id = len(self.atoms) + 1; a.name = name; a.term = term
        if term is not None and lo is None: lo, hi = srng(term)
        a.lo = lo; a.hi = hi; a.bits = None
        self.atoms.append(a); self.byname[name] = a
        if term is not None:
            if type(term) is T: self.memo[term] = ({a.id: 1}, lo, hi)
            if not raw:
                b = self.srcbits([term])
                a.bits = b
                for s in set(x for x, _ in b): self.bitidx.setdefault(s, []).append(a)
        return a

    def canon(self, form):
        """scaled canonical key and the scale: form = scale * canonical"""
        items = sorted(form.items(), key=_ik)
        for k, c in items:
            if k != 0:
                lead = c; break
        else: return None, 1
        inv = pow(lead, -1, self.q)
        return tuple((k, c * inv % self.q) for k, c in items), lead

    def target(self, name, form):
        """name the value of a (bi)linear form; returns an atom standing for it"""
        a = Atom(); a.id = len(self.atoms) + 1; a.name = name; a.term = None; a.lo = a.hi = None; a.bits = None
        self.atoms.append(a); self.byname[name] = a
        key, sc = self.canon(form)
        if key is None: return a
        # canonical = form/sc  =>  canonical*sc = atom
        self.targets.setdefault(key, (a.id, pow(sc, -1, self.q)))
        self.tsizes.add(len(form))
        return a

    def norm(self, form):
        form = {k: c % self.q for k, c in form.items() if c % self.q}
        c0 = form.get(0, 0)
        n = len(form) - (c0 != 0)
        if n > 1 and n in self.tsizes:
            f2 = form
            if c0: f2 = dict(form); del f2[0]
            key, sc = self.canon(f2)
            t = self.targets.get(key)
            if t is not None:
                r = {t[0]: sc * t[1] % self.q}
                if c0: r[0] = c0
                return r
        return form

    # ---- sources
    def is_src(self, n):
        return n.op == 'sym' or n.op == 'uf' or (n.op == 'xor' and len(n.a[1]) > 1)

    def srcbits(self, roots, limit=4000, steps=1 << 30):
        """set of (source node, bit) the roots depend on structurally; None when over the limits"""
        out = set(); seen = set(); st = [r for r in roots if type(r) is T]
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n); steps -= 1
            if steps < 0: return None
            if self.is_src(n):
                for i in range(n.w):
                    if (n.nz >> i) & 1: out.add((n, i))
            elif n.op == 'ext' and self.is_src(n.a[0]):
                for i in range(n.w): out.add((n.a[0], n.a[1] + i))
            else: st += children(n)
            if len(out) > limit: return None
        return out

    # ---- forms
    def get(self, n):
        if type(n) is int:
            raise TypeError
        r = self.memo.get(n, 0)
        if r != 0: return r
        self.memo[n] = None
        r = self._get(n)
        if r is not None:
            r = (self.norm(r[0]), r[1], r[2])
        self.memo[n] = r
        return r

    def value(self, v, w):
        """form of an int or node of width w, signed"""
        if type(v) is int:
            s = s_of(v, w); return ({0: s % self.q} if s % self.q else {}, s, s)
        return self.get(v)

    def _get(self, n):
        op = n.op; w = n.w
        if w == 1: return None
        if op == 'sext': 
            if n.a[0].w > 1: return self.get(n.a[0])
            return None
        if op == 'cat' and len(n.a) == 2 and type(n.a[1][0]) is int and n.a[1][0] == 0 and type(n.a[0][0]) is T:
            x = n.a[0][0]
            if x.w >= 12:
                f = self.get(x)
                if f is not None and f[1] >= 0: return f
        if op == 'cat' and n.a[0][0] == 0 and type(n.a[0][0]) is int:     # multiplication by 2^k
            k = n.a[0][1]
            rest = tm.cat(n.a[1:])
            if type(rest) is T and rest.w > 8:
                f = self.get(rest)
                if f is not None: return self._scale(f, 1 << k, w)
                # product by 2^k of a wider value whose top bits are cut
                if rest.op == 'ext' and rest.a[1] == 0:
                    f = self.get(rest.a[0])
                    if f is not None: return self._scale(f, 1 << k, w)
        if op == 'ext' and n.a[1] == 0 and w >= 12:
            f = self.get(n.a[0])
            if f is not None and f[1] >= -(1 << (w - 1)) and f[2] < 1 << (w - 1): return f
        if op == 'add':
            f = self._sum(n)
            if f is not None:
                if f[2] - f[1] > self.q and any(self._multq(u) for k, u in n.a[1]):
                    # reduction step: the interval of the sum is too coarse, ask for the exact one
                    g = self._cone(n)
                    if g and g[2] - g[1] < f[2] - f[1] and self.norm(g[0]) == self.norm(f[0]): return g
                return f
        if op == 'mul':
            f = self._prod(n)
            if f is not None: return f
        if w < 8: return None
        f = self._cone(n)
        if f is not None: return f if f != 0 else None
        return self._bitatom(n)

    def _multq(self, u):
        f = self.get(u)
        return f is not None and f[1] < f[2] and all(a == 0 for a in f[0])

    def _scale(self, f, k, w):
        lo, hi = sorted((f[1] * k, f[2] * k))
        if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1): return None
        return ({a: c * k % self.q for a, c in f[0].items()}, lo, hi)

    def _sum(self, n):
        w = n.w; c, ts = n.a
        c = s_of(c, w); lo = hi = c
        fs = []
        for k, u in ts:
            k = s_of(k, w)
            f = self.get(u)
            if f is None:
                return self._flatsum(n) if w <= 32 else None
            fs.append((k, f[0]))
            if k >= 0: lo += k * f[1]; hi += k * f[2]
            else: lo += k * f[2]; hi += k * f[1]
        H = 1 << (w - 1)
        if lo < -H or hi >= H:
            self.fails[n] = ('overflow', lo, hi)
            return None
        q = self.q
        if len(fs) == 1: k, f = fs[0]; out = {a: x * k % q for a, x in f.items()}
        else:
            fs.sort(key=lambda x: -len(x[1]))
            k, f = fs[0]
            out = dict(f) if k == 1 else {a: x * k % q for a, x in f.items()}
            for k, f in fs[1:]:
                for a, x in f.items(): out[a] = (out.get(a, 0) + k * x) % q
        if c % q: out[0] = (out.get(0, 0) + c) % q
        return (out, lo, hi)

    def _flatsum(self, n, maxn=24):
        """sum whose parts are only together congruent to something: flatten, group by common cut"""
        w = n.w; c0 = n.a[0]; acc = {}; st = [(k, u) for k, u in n.a[1]]
        while st:
            k, u = st.pop()
            if u.op == 'add' and self.get(u) is None and len(u.a[1]) > 1:
                c0 += k * u.a[0]
                st += [(k * k2, u2) for k2, u2 in u.a[1]]
            else: acc[u] = (acc.get(u, 0) + k) & MASK[w]
            if len(acc) + len(st) > maxn: return None
        parts = []      # (coef, form, lo, hi)
        rest = []
        for u, k in acc.items():
            if k == 0: continue
            f = self.get(u)
            if f is not None: parts.append((s_of(k, w),) + f)
            else: rest.append((k, u))
        if len(rest) < 2: return None
        cuts = {}; order = []
        for i, (k, u) in enumerate(rest):
            for d, (v, f) in enumerate(self.single_cuts(u)):
                if v not in cuts: cuts[v] = (f, [])
                cuts[v][1].append((d, i))
        cand = sorted(((sum(d for d, i in l) / len(l), v) for v, (f, l) in cuts.items() if len(l) > 1), key=lambda x: x[0])
        used = set()
        for _, v in cand:
            f, l = cuts[v]
            g = [i for d, i in l if i not in used]
            if len(g) < 2: continue
            node = tm.addn(w, 0, [rest[i] for i in g])
            if type(node) is int: continue
            r = self.affine(node, [v], [f[1:]])
            if r is None: continue
            (c,), d, lo, hi = r
            out = {a: x * c % self.q for a, x in f[0].items()}
            if d % self.q: out[0] = (out.get(0, 0) + d) % self.q
            parts.append((1, out, lo, hi)); used.update(g)
        if len(used) != len(rest): return None
        c0 = s_of(c0 & MASK[w], w)
        lo = hi = c0; out = {0: c0 % self.q}
        for k, f, a, b in parts:
            if k >= 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
            for x, y in f.items(): out[x] = (out.get(x, 0) + k * y) % self.q
        H = 1 << (w - 1)
        if lo < -H or hi >= H:
            self.fails[n] = ('overflow', lo, hi); return None
        return ({a: x for a, x in out.items() if x}, lo, hi)

    def _prod(self, n):
        p = smt.pkey(n)
        if p is None: return None
        r = self.prange(p)
        if r is None: return None
        if r[0] < -(1 << (n.w - 1)) or r[1] >= 1 << (n.w - 1): return None
        return (self.pform(p), r[0], r[1])

    def prange(self, p):
        a = self.get(p[1]); b = self.get(p[2])
        if a is None or b is None: return None
        if len(a[0]) > 2 or len(b[0]) > 2: return None
        ps = [x * y for x in a[1:] for y in b[1:]]
        if p[1] is p[2]: ps = [0] + ps
        return (min(ps), max(ps))

    def pform(self, p):
        a = self.get(p[1])[0]; b = self.get(p[2])[0]
        out = {}
        for x, c in a.items():
            for y, d in b.items():
                if type(x) is tuple or type(y) is tuple: k = ('#', x, y)
                elif x == 0: k = y
                elif y == 0: k = x
                else: k = (x, y) if x <= y else (y, x)
                out[k] = (out.get(k, 0) + c * d) % self.q
        return out

    def single_cuts(self, n, limit=80):
        """formed single-node dominators of the cone of n, nearest first (nodes or P keys)"""
        heap = []; inh = set()
        def push(u):
            if type(u) is T and u not in inh:
                inh.add(u); heapq.heappush(heap, (-u.id, u))
        for u in children(n): push(u)
        steps = 0
        while heap:
            if len(heap) == 1:
                u = heap[0][1]
                if u.w >= 10 or u in self.memo:
                    f = self.get(u)
                    if f is not None: yield u, f
            if all(x.op == 'mul' for _, x in heap):
                ks = set(smt.pkey(x) for _, x in heap)
                if len(ks) == 1 and None not in ks:
                    p = ks.pop(); r = self.prange(p)
                    if r is not None: yield p, (self.pform(p), r[0], r[1])
            steps += 1
            if steps > limit: return
            _, u = heapq.heappop(heap)
            if u.op == 'sym' or u.op == 'uf': return
            for x in children(u): push(x)

    def _cone(self, n):
        hit = None
        for v, f in self.single_cuts(n):
            hit = 0
            r = self.affine(n, [v], [f[1:]])
            if r is None:
                continue
            (c,), d, lo, hi = r
            out = {a: x * c % self.q for a, x in f[0].items()}
            if d % self.q: out[0] = (out.get(0, 0) + d) % self.q
            return (out, lo, hi)
        return hit

    def affine(self, n, leaves, ranges):
        """hint coefficients numerically, register the lemma; None if not affine"""
        ranges = tuple((int(a), int(b)) for a, b in ranges)
        key = smt.alpha([n], leaves)
        k2 = (key, ranges)
        if k2 in self.afftab:
            r = self.afftab[k2]
        else:
            r = self.afftab[k2] = self._affine(n, leaves, ranges)
        if r is not None:
            lem = ('aff', key, ranges) + r + (self.q,)
            self.lemmas.setdefault(lem, None)
        return r

    def _affine(self, n, leaves, ranges):
        q = self.q
        cols = lemma.samples(ranges, self.rnd)
        # quick rejection on a few points
        try:
            few = [c[:: max(1, len(c) // 40)][:41] for c in cols]
            y = lemma.signed_np(lemma.np_eval([n], leaves, few, len(few[0]))[0], n.w)
        except OverflowError:
            return None
        r = self._solve_aff(few, y)
        if r is None: return None
        y = lemma.signed_np(lemma.np_eval([n], leaves, cols, len(cols[0]))[0], n.w)
        cs, d = r
        lin = np.full(len(y), d, dtype=np.int64)
        for c, col in zip(cs, cols): lin = (lin + c * (col % q)) % q
        bad = np.nonzero((y - lin) % q)[0]
        if len(bad):
            if len(bad) > len(y) // 50: return None
            # almost affine: keep as an obligation (the solver will produce the counterexample)
        lo, hi = int(y.min()), int(y.max())
        exact = len(ranges) == 1 and len(y) == ranges[0][1] - ranges[0][0] + 1
        if len(bad):
            m = np.ones(len(y), bool); m[bad] = False
            lo, hi = int(y[m].min()), int(y[m].max())
        elif not exact:
            sl = max(4, (hi - lo) // 64); lo -= sl; hi += sl
            if -q < lo + sl and hi - sl < q: lo = max(lo, -(q - 1)); hi = min(hi, q - 1)
        # the interval that follows from the structure alone is cheaper to prove: prefer it when about as tight
        if len(ranges) == 1:
            sl, sh = self._struct(n, leaves[0], ranges[0])
            if cs == (0,) or sh - sl <= 1.15 * (hi - lo) + 8: lo, hi = sl, sh
        return (tuple(int(c) for c in cs), int(d), lo, hi)

    def _struct(self, n, leaf, r):
        if type(leaf) is tuple:
            h = self.hole(2 * leaf[1].w, r[0], r[1]); m = {}
            for t in smt._topo_p([n], (), {leaf}):
                if t.op == 'mul' and smt.pkey(t) == leaf: m[t] = tm.sext(h, h.w, t.w) if t.w >= h.w else tm.ext(h, 0, t.w)
        else: m = {leaf: self.hole(leaf.w, r[0], r[1])}
        return srng(tm.subst(n, m)) if n not in m else r

    def _solve_aff(self, cols, y):
        q = self.q
        m = len(cols)
        # solve y = sum c_i x_i + d (mod q) by Gaussian elimination over the sample rows
        rows = [[int(c[i]) % q for c in cols] + [1, int(y[i]) % q] for i in range(len(y))]
        if m == 1:
            # robust: try several pairs, accept the majority answer
            from collections import Counter
            cnt = Counter()
            R = rows
            for i in range(len(R) - 1):
                a, b = R[i], R[i + 1]
                dx = (b[0] - a[0]) % q
                if dx == 0: continue
                c = (b[2] - a[2]) * pow(dx, -1, q) % q
                cnt[(c, (a[2] - c * a[0]) % q)] += 1
            if not cnt: return ((0,), rows[0][2]) if len(set(r[2] for r in rows)) == 1 else None
            (c, d), k = cnt.most_common(1)[0]
            if k < 0.6 * sum(cnt.values()): return None
            return ((_sm(c, q),), _sm(d, q))
        piv = []
        R = [r[:] for r in rows]
        rr = 0
        for col in range(m + 1):
            p = next((i for i in range(rr, len(R)) if R[i][col]), None)
            if p is None: return None
            R[rr], R[p] = R[p], R[rr]
            iv = pow(R[rr][col], -1, q)
            R[rr] = [x * iv % q for x in R[rr]]
            for i in range(len(R)):
                if i != rr and R[i][col]:
                    k = R[i][col]; R[i] = [(x - k * z) % q for x, z in zip(R[i], R[rr])]
            rr += 1
        if any(r[-1] for r in R[rr:]): return None
        return (tuple(_sm(R[i][-1], q) for i in range(m)), _sm(R[m][-1], q))

    # ---- atoms given by spec functions of raw bits
    def _bitatom(self, n):
        if not self.bitidx: return None
        b = self.srcbits([n], 160, 400)
        if not b: return None
        cands = []
        seen = set()
        for s in set(x for x, _ in b):
            for a in self.bitidx.get(s, ()):
                if a.id not in seen and a.bits <= b:
                    seen.add(a.id); cands.append(a)
        if not cands: return None
        c = self.match(n, cands, b)
        if c is None: return None
        c, d = c
        return ({c.id: 1, 0: d % self.q} if d % self.q else {c.id: 1}, c.lo + d, c.hi + d)

    def match(self, n, cands, b):
        leaves = sorted(set(x for x, _ in b), key=lambda t: t.id)
        if len(leaves) > 1 and any(l.w > 64 for l in leaves): return None
        cols = [self.rnd.integers(0, 1 << 63, size=256).astype(np.uint64) * np.uint64(2) + self.rnd.integers(0, 2, size=256).astype(np.uint64) for l in leaves]
        cols = [(c & np.uint64(MASK[l.w])).astype(np.int64) for c, l in zip(cols, leaves)]
        try:
            ys = lemma.np_eval([n] + [a.term for a in cands], leaves, cols, 256)
        except OverflowError:
            return None
        y = lemma.signed_np(ys[0], n.w)
        best = None
        for a, z in zip(cands, ys[1:]):
            d = y - lemma.signed_np(z, a.term.w)
            dv, cnt = np.unique(d, return_counts=True)
            i = int(cnt.argmax())
            k = int(cnt[i]); off = int(dv[i])
            H = 1 << (n.w - 1)
            if a.lo + off < -H or a.hi + off >= H: continue
            if k == 256: best = a, off; break
            if k > 240 and best is None: best = a, off
        if best is None: return None
        a, off = best
        if off:
            W = max(n.w, a.term.w) + 1
            self.equal(n, tm.add(W, tm.sext(a.term, a.term.w, W), off & MASK[W]), leaves)
        else: self.equal(n, a.term, leaves)
        return best

    def hole(self, w, lo, hi):
        """placeholder for a formed value of the given range"""
        return tm.sym('hole%d_%d_%d' % (w, lo, hi), w, 0, nz=MASK[hi.bit_length()] if lo >= 0 else None, srng=(lo, hi))

    def equal(self, n, spec, leaves=None, ranges=None):
        """register lemma signed(n) = signed(spec) over raw leaves"""
        if n is spec: return
        W = max(n.w if type(n) is T else 0, spec.w if type(spec) is T else 0)
        a = tm.sext(n, n.w, W) if type(n) is T else n
        b = tm.sext(spec, spec.w, W) if type(spec) is T else spec
        self.same(a, b, leaves, ranges)

    def smallcone(self, roots, limit=400):
        """the input symbols of a small cone, or None"""
        seen = set(); st = [r for r in roots if type(r) is T]; out = []
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            if len(seen) > limit: return None
            if n.op == 'sym' or n.op == 'uf': out.append(n)
            else: st += children(n)
        return sorted(out, key=lambda t: t.id)

    def same(self, a, b, leaves=None, ranges=None):
        if a is b or (type(a) is int and type(b) is int and a == b): return
        if leaves is None:
            leaves = self.smallcone([a, b])
            if leaves is None: leaves = sorted(set(x for x, _ in self.srcbits([a, b], 1 << 30)), key=lambda t: t.id)
        if ranges is None:
            ranges = tuple(leafrange(l) for l in leaves)
        key = smt.alpha([a, b], leaves)
        self.lemmas.setdefault(('eq', key, tuple(ranges)), None)

def leafrange(l):
    if l.siv is not None and l.siv != (-(1 << (l.w - 1)), (1 << (l.w - 1)) - 1): return tuple(l.siv)
    return tuple(rng(l))

def _sm(c, q):
    return c if c <= q // 2 else c - q
def _ik(p):
    k = p[0]
    return (0, k, 0) if type(k) is int else (1, k[0] if type(k[0]) is int else 0, k[1] if type(k[1]) is int else 0)
