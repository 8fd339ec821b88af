"""Jobs and counterexample confirmation for the polynomial-layer contracts."""
import os, random, time
import numpy as np
from . import leaf as L, lemma, smt, native, terms as tm, runner, harness as H
from .terms import T, MASK

def leaf_group(impl, k, names, ct=False):
    """runs several contracts in one process"""
    out = []
    for n in names:
        r = L.run_leaf(impl, k, n)
        if getattr(r, 'outs', None) and not r.problems:
            try: r.info['validated'] = validate(impl, k, n, r)
            except Exception as e: r.info['validated'] = 'failed: %s' % e
        d = runner.summarize(r, ct)
        out.append(d)
    return out

def rows(C, rnd, n, mode='random'):
    """input matrix"""
    m = len(C.inputs)
    lo = np.array([x[3] for x in C.inputs], dtype=np.int64); hi = np.array([x[4] for x in C.inputs], dtype=np.int64)
    if mode == 'random': return rnd.integers(lo, hi + 1, size=(n, m))
    if mode == 'extreme':
        X = rnd.integers(lo, hi + 1, size=(n, m))
        for r in range(n):
            k = r % 8
            if k == 0: X[r] = lo
            elif k == 1: X[r] = hi
            elif k == 2: X[r] = np.where(rnd.integers(0, 2, m) == 1, lo, hi)
            elif k == 3: X[r] = np.where(rnd.random(m) < 0.1, X[r], np.where(rnd.integers(0, 2) == 1, lo, hi))
            elif k == 4: X[r] = np.clip(0, lo, hi); X[r, rnd.integers(0, m)] = rnd.integers(lo.min(), hi.max() + 1); X[r] = np.clip(X[r], lo, hi)
            elif k == 5:
                p = 1 << rnd.integers(0, 9); X[r] = np.where((np.arange(m) // p) % 2 == rnd.integers(0, 2), lo, hi)
            elif k == 6: X[r] = np.clip(rnd.integers(-2, 3, m) + rnd.choice([lo, hi, np.zeros_like(lo)]), lo, hi)
            else: X[r] = hi - rnd.integers(0, 4, m); X[r] = np.clip(X[r], lo, hi)
        return X

def sweep(C, start, n):
    """row r sets every input i to (r + 37 i) mod range: all (position, value) pairs once r covers the range"""
    lo = np.array([x[3] for x in C.inputs], dtype=np.int64); hi = np.array([x[4] for x in C.inputs], dtype=np.int64)
    r = np.arange(start, start + n)[:, None] + 37 * np.arange(len(C.inputs))[None, :]
    return lo + r % (hi - lo + 1)

def validate(impl, k, name, res, n=24):
    """compare the symbolic outputs with the compiled code on concrete inputs"""
    leaf = L.contracts(impl, k)[name]
    C = L.Concrete(leaf)
    rnd = np.random.default_rng(int(os.environ.get('VERIF_SEED', '1') or 1))
    X = np.concatenate([rows(C, rnd, n // 2), rows(C, rnd, n // 2, 'extreme')])
    roots = []; ix = []
    for nm, l in res.outs.items():
        for i, t in enumerate(l):
            if type(t) is T: roots.append(t); ix.append((nm, i))
    syms = tm.syms(roots)
    inp = {x[2]: j for j, x in enumerate(C.inputs)}
    if any(s not in inp for s in syms): return 'skipped: other symbols'
    ls = [x[2] for x in C.inputs]
    vs = lemma.np_eval(roots, ls, [X[:, j] for j in range(X.shape[1])], len(X))
    def f():
        C.bind(native.lib(impl, k)); return C.native(X)
    st, Y = native.isolated(f, 60)
    if st != 'ok': return 'native %s %s' % (st, Y)
    for (nm, i), v, t in zip(ix, vs, roots):
        y = Y[nm][:, i]
        v = lemma.signed_np(v, t.w) if t.w == 16 and nm not in ('o',) else v.astype(np.int64)
        if t.w == 16: y = lemma.signed_np(y.astype(np.uint64), 16)
        if (v != y).any(): return 'MISMATCH %s[%d]' % (nm, i)
    return len(X)

def search(impl, k, name, ints=(), budget=40, assigns=(), seed=1):
    """look for an input on which the compiled function breaks its contract; -> replay dict or None"""
    leaf = L.contracts(impl, k)[name]
    rnd = np.random.default_rng(seed)
    def go():
        C = L.Concrete(leaf)
        C.bind(native.lib(impl, k))
        m = len(C.inputs)
        lo = np.array([x[3] for x in C.inputs], dtype=np.int64); hi = np.array([x[4] for x in C.inputs], dtype=np.int64)
        end = time.time() + budget
        wid = int((hi - lo).max()) + 1
        def batches():
            if assigns:
                X = np.clip(np.zeros((len(assigns), m), dtype=np.int64), lo, hi)
                for r, a in enumerate(assigns):
                    for (n, i), v in a.items():
                        if (n, i) in C.idx: X[r, C.idx[(n, i)]] = v
                yield np.clip(X, lo, hi)
                X = np.repeat(X, 16, 0); 
                Z = rows(C, rnd, len(X)); 
                for r in range(len(X)):
                    a = assigns[r // 16]
                    for (n, i), v in a.items():
                        if (n, i) in C.idx: Z[r, C.idx[(n, i)]] = v
                yield np.clip(Z, lo, hi)
            vals = sorted(set(int(v) for v in ints))[:64]
            if vals:
                X = []
                for v in vals:
                    for d in (0, 1, -1):
                        X.append(np.full(m, v + d))
                for _ in range(400): X.append(rnd.choice(vals, m))
                for w in vals[:8]:
                    z = rows(C, rnd, 32); z[:, rnd.integers(0, m, 1)] = w; X += list(z)
                X = np.array(X); ok = np.clip(X, lo, hi)
                yield ok
            yield rows(C, rnd, 256, 'extreme')
            yield rows(C, rnd, 256)
            if m >= 256:
                vv = np.arange(-32768, 32768) if lo.min() < 0 else np.arange(0, 65536)
                vv = vv[(vv >= lo.min()) & (vv <= hi.max())]
                for st in range(0, len(vv), 4096): yield np.clip(np.repeat(vv[st:st + 4096, None], m, 1), lo, hi)
            if m > 1 or wid <= 1 << 20:
                st = 0
                while st < min(wid, 1 << 17):
                    yield sweep(C, st, 2048); st += 2048
            b = 0
            while True:
                b += 1
                if b % 3 == 0 and vals:
                    X = rows(C, rnd, 1024); mk = rnd.random(X.shape) < 0.3
                    yield np.clip(np.where(mk, rnd.choice(vals, X.shape), X), lo, hi)
                else: yield rows(C, rnd, 2048, 'extreme' if b % 2 else 'random')
        heavy = any(w[0] == 'eq' and type(w[1]) is T and 'getnoise' in name for l in C.want.values() for w in l[:1])
        n = 0
        for X in batches():
            if time.time() > end: return None
            if heavy: X = X[:64]
            Y = C.native(X)
            n += len(X)
            bad, where = C.check(X, Y)
            ok = all(b.intact() for b in C.bufs.values())
            if bad.any() or not ok:
                r = where[0] if where else 0
                ins = {}
                for j, (nm, i, _, _, _) in enumerate(C.inputs): ins.setdefault(nm, []).append(int(X[r, j]))
                return dict(kind='function contract', function=leaf.full, contract=name, impl=impl, k=k, inputs=ins,
                            output={nm: [int(z) for z in Y[nm][r]] for nm in Y}, first_bad=str(where[1:]) if where else 'buffer overrun', tried=n,
                            how='native shared library built from the current tree; the listed inputs passed to the function give the listed output, which contradicts the contract (element first_bad)')
        return None
    st, v = native.isolated(go, budget + 60)
    if st == 'crash': return dict(kind='crash', function=leaf.full, contract=name, impl=impl, k=k, signal=v)
    return v if st == 'ok' else None

def explain(impl, k, name, sat):
    """sat: {lemma: leaf values}.  Map refuted lemmas back to inputs of the contract -> assignments"""
    from . import forms
    watch = runner.Watch(sat)
    occ = {}
    orig_aff, orig_same = forms.Forms.affine, forms.Forms.same
    def aff(self, n, leaves, ranges):
        r = orig_aff(self, n, leaves, ranges)
        if r is not None:
            lem = ('aff', smt.alpha([n], leaves), tuple((int(a), int(b)) for a, b in ranges)) + r + (self.q,)
            if lem in sat: occ.setdefault(lem, ([n], leaves))
        return r
    def same(self, a, b, leaves=None, ranges=None):
        before = len(self.lemmas)
        orig_same(self, a, b, leaves, ranges)
        if leaves is None:
            leaves = self.smallcone([a, b])
            if leaves is None: leaves = sorted(set(x for x, _ in self.srcbits([a, b], 1 << 30)), key=lambda t: t.id)
        try: lem = ('eq', smt.alpha([a, b], leaves), tuple(ranges or tuple(forms.leafrange(l) for l in leaves)))
        except Exception: return
        if lem in sat: occ.setdefault(lem, ([a, b], leaves))
    forms.Forms.affine = aff; forms.Forms.same = same
    try: r = L.run_leaf(impl, k, name)
    finally: forms.Forms.affine = orig_aff; forms.Forms.same = orig_same
    out = []
    inputs = {x[2]: (x[0], x[1]) for x in r.inst.input_list()} if hasattr(r, 'inst') else {}
    F = getattr(r, 'F', None)
    if F is not None:
        rnd = np.random.default_rng(7)
        ain = {}
        for nm, i, x, lo, hi in r.inst.input_list():
            if nm in r.inst.ids: ain[r.inst.ids[nm][i]] = (nm, i, lo, hi)
        try:
            for n in sorted(F.fails, key=lambda t: t.id)[:400:50] + sorted(F.fails, key=lambda t: t.id)[:3]:
                for tg in overflow_targets(F, n): out += drive(F, tg, ain, rnd, 3)
            for lem, (roots, leaves) in list(occ.items())[:12]:
                vals = sat[lem]
                if vals: out += drive(F, [(F.memo[l][0], v) for l, v in zip(leaves, vals) if type(l) is T and F.memo.get(l)], ain, rnd, 12)
        except Exception as e: runner.log('drive failed', repr(e))
    for lem, (roots, leaves) in occ.items():
        vals = sat[lem]
        if not vals: continue
        a = {}
        for l, v in zip(leaves, vals):
            if l in inputs: a[inputs[l]] = v
        if a: out.append(a)
        elif len(out) < 4:
            # ask the solver for inputs driving the leaves to these values
            conds = [tm.eq(l.w, l, v & MASK[l.w]) for l, v in zip(leaves, vals) if type(l) is T and not l.op == 'sym']
            syms = tm.syms([c for c in conds if type(c) is T])
            if conds and len(syms) < 40:
                rs, env = smt.bv_check(conds, 20, 'drive')
                if rs == 'sat': out.append({inputs[s]: (tm.s_of(v, s.w) if s.w == 16 else v) for s, v in env.items() if s in inputs})
    return out

def confirm_all(o, budget=150, procs=8, only=None):
    """for every contract with an open problem, search for a native counterexample"""
    want = {}
    def note(job, sub, ints=(), lem=None):
        w = want.setdefault((job, sub), dict(ints=set(), sat={}))
        w['ints'].update(ints)
        if lem is not None: w['sat'][lem[0]] = lem[1]
    for p in o.problems:
        if 'sub' in p: note(p['job'], p['sub'])
    for l, info, owners in o.sat:
        for job, sub in owners[:6]: note(job, sub, [v for v in (info or []) if type(v) is int and abs(v) < 1 << 34], (l, info))
    for l, info, owners in o.unknown:
        for job, sub in owners[:6]: note(job, sub)
    jobs = []
    for (job, sub), w in list(want.items())[:24]:
        if not isinstance(sub, str) or '/K=' not in sub: continue
        impl = sub.split('/')[0]; k = int(sub.split('/K=')[1].split('/')[0])
        if sub not in L.contracts(impl, k): continue
        jobs.append((sub, _confirm, (impl, k, sub, w, budget / max(1, -(-len(want) // procs))), 900))
    outs = runner.run_jobs(jobs, procs, budget * 2 + 60)
    return [v for st, v in outs.values() if st == 'ok' and v]

def _confirm(impl, k, sub, w, budget):
    a = []
    try: a = explain(impl, k, sub, w['sat'])
    except Exception as e: runner.log('explain failed', e)
    return search(impl, k, sub, sorted(w['ints'])[:64], max(10, budget), a)

# ------------------------------------------------------------------ driving formed nodes to chosen values
Q = 3329
def gf_solve(rows, rhs, nvar, rnd):
    """random solution of rows*x = rhs over GF(q); rows: list of {var: coef}; None if inconsistent"""
    m = len(rows)
    A_ = np.zeros((m, nvar + 1), dtype=np.int64)
    for i, r in enumerate(rows):
        for v, c in r.items(): A_[i, v] = c % Q
        A_[i, nvar] = rhs[i] % Q
    piv = []; r = 0
    perm = rnd.permutation(nvar)
    for c in perm:
        nz = np.nonzero(A_[r:, c])[0]
        if len(nz) == 0: continue
        p = r + int(nz[0])
        if p != r: A_[[r, p]] = A_[[p, r]]
        A_[r] = A_[r] * pow(int(A_[r, c]), -1, Q) % Q
        f = A_[:, c].copy(); f[r] = 0
        A_ = (A_ - f[:, None] * A_[r][None, :]) % Q
        piv.append(int(c)); r += 1
        if r == m: break
    if any(A_[i, nvar] for i in range(r, m)): return None
    x = rnd.integers(0, Q, nvar)
    free = np.ones(nvar, bool); free[piv] = False
    for i, c in enumerate(piv):
        x[c] = (A_[i, nvar] - (A_[i, :nvar] * np.where(free, x, 0)).sum()) % Q
    return x

def flat_targets(F, n, sign=1, out=None, depth=0):
    """leaves of a sum tree: [(coef, node, form)] whose range is about one modulus wide"""
    if out is None: out = []
    f = F.memo.get(n)
    if n.op == 'add' and (f is None or f[2] - f[1] > Q + 200) and depth < 12:
        for k, u in n.a[1]:
            k = tm.s_of(k, n.w)
            flat_targets(F, u, sign * k, out, depth + 1)
        return out
    if n.op in ('sext',) and n.a[0].w > 1: return flat_targets(F, n.a[0], sign, out, depth)
    if n.op == 'ext' and n.a[1] == 0: return flat_targets(F, n.a[0], sign, out, depth)
    if f is not None: out.append((sign, n, f))
    return out

def drive(F, nodes, inputs, rnd, tries=6):
    """nodes: [(form, lo, hi, value)]; inputs: {atom id: (name, i, lo, hi)} -> assignments"""
    ids = sorted(inputs); ix = {a: j for j, a in enumerate(ids)}
    out = []
    rows_ = []; rhs = []
    for form, val in nodes:
        row = {}; c0 = 0; ok = True
        for a, c in form.items():
            if a == 0: c0 = c; continue
            if a not in ix: ok = False; break
            row[ix[a]] = c
        if not ok or not row: continue
        rows_.append(row); rhs.append(val - c0)
    if not rows_: return out
    for t in range(tries):
        x = gf_solve(rows_, rhs, len(ids), rnd)
        if x is None:
            # drop equations until solvable
            k = len(rows_)
            while x is None and k > 1: k //= 2; x = gf_solve(rows_[:k], rhs[:k], len(ids), rnd)
            if x is None: return out
        a = {}
        for j, i in enumerate(ids):
            nm, p, lo, hi = inputs[i]
            v = int(x[j])
            if t % 2 and v > hi or v > hi or (t % 3 == 1 and v > Q // 2): v -= Q
            if v < lo: v += Q
            a[(nm, p)] = v
        out.append(a)
    return out

def overflow_targets(F, n):
    ts = flat_targets(F, n)
    pos = [(f[0], f[2] if k > 0 else f[1]) for k, u, f in ts]
    neg = [(f[0], f[1] if k > 0 else f[2]) for k, u, f in ts]
    return pos, neg
