"""Contracts of the polynomial layer: symbolic runs of single functions, and the same contracts evaluated
concretely for replay.

A contract is built once per symbolic input; every output element carries either
  ('form', form over input atoms, lo, hi)        signed(out) = form (mod q), lo <= out <= hi
  ('eq', term)                                    out = term over the inputs
  ('fld', form or None, term->term, d)            a d-bit field equals fn(canonical residue of the form)
"""
import time
import numpy as np
from . import terms as tm, spec, lemma, smt, harness as H
from .terms import T, MASK
from .forms import Forms
from .exec import Violation, Unsupported, PathEnd, SECRET, UNINIT, STATE, PRIOR

Q = 3329
R = 2285            # 2^16 mod q
RI = 169            # 2^-16 mod q
assert R * RI % Q == 1 and R == 2 ** 16 % Q

class A:
    """argument: kind poly|bytes|int|i16|i32 ; dir i|o|io ; n elements ; order std|ntt ; lo,hi range of coefficients"""
    def __init__(s, kind, name, n=0, dir='i', lo=-32768, hi=32767, order='std', align=None, slack=0, val=None, alias=None):
        s.kind = kind; s.name = name; s.n = n; s.dir = dir; s.lo = lo; s.hi = hi; s.order = order; s.align = align; s.slack = slack; s.val = val; s.alias = alias

class Leaf:
    def __init__(s, impl, k, fn, args, expect, ret=None, tag='', full=None):
        s.impl = impl; s.k = k; s.fn = fn; s.args = args; s.expect = expect; s.ret = ret; s.tag = tag
        s.full = full or (H.ns(impl, k) + fn)
        s.name = '%s/K=%d/%s%s' % (impl, k, fn, '(' + tag + ')' if tag else '')

def perm(leaf, a):
    """memory position of element i"""
    if a.kind == 'poly' and leaf.impl == 'avx2' and a.order == 'ntt':
        return [256 * (i // 256) + H.avx_index(i % 256) for i in range(a.n)]
    return list(range(a.n))

# ------------------------------------------------------------------ contracts
def LIN(rows, ids, lo, hi, scale=1):
    return [('form', {i: c * scale % Q for i, c in zip(ids, row) if c}, lo, hi) for row in rows]

def cat_(*ls):
    out = []
    for l in ls: out += l
    return out

def contracts(impl, k):
    """all contracts of one variant, name -> Leaf"""
    p = spec.PAR[k]; avx = impl == 'avx2'
    pal = 32 if avx else 2
    out = []
    def P(name, m=1, **kw): return A('poly', name, 256 * m, align=pal, **kw)
    def B(name, n, **kw): return A('bytes', name, n, **kw)
    def add(fn, args, expect, **kw): out.append(Leaf(impl, k, fn, args, expect, **kw))
    NT = spec.ntt_matrix(); IN = spec.invntt_matrix()
    cl, ch = (0, Q) if avx else (-(Q - 1), Q - 1)     # documented range of reduced coefficients
    def fid(I, n, i): return {I.ids[n][i]: 1}
    # --- reductions (reference only; the AVX2 ones are inside the vector routines)
    if not avx:
        add('montgomery_reduce', [A('i32', 'x', lo=-Q * 32768, hi=Q * 32768 - 1)], lambda I: {'ret': [('form', {I.ids['x'][0]: RI}, -(Q - 1), Q - 1)]}, ret=16)
        add('barrett_reduce', [A('i16', 'x')], lambda I: {'ret': [('form', fid(I, 'x', 0), -1664, 1664)]}, ret=16)
        add('cmov_int16', [A('poly', 'r', 1, dir='io', align=2), A('i16', 'v'), A('int', 'b', lo=0, hi=1, val=16)],
            lambda I: {'r': [('eq', tm.ite(tm.ext(I.t['b'][0], 0, 1), I.t['v'][0], I.t['r'][0], 16))]})
    red = (0, Q) if avx else (-1664, 1664)
    for m, nm in ((1, 'poly'), (k, 'polyvec')):
        add(nm + '_reduce', [P('r', m, dir='io')], lambda I: {'r': [('form', fid(I, 'r', i), *red) for i in range(len(I.ids['r']))]})
        add(nm + '_add', [P('r', m, dir='o'), P('a', m), P('b', m)], lambda I: {'r': [('eq', tm.add(16, x, y)) for x, y in zip(I.t['a'], I.t['b'])]})
        add(nm + '_add', [P('r', m, dir='io'), A('poly', 'a', 256 * m, alias='r'), P('b', m)], lambda I: {'r': [('eq', tm.add(16, x, y)) for x, y in zip(I.t['r'], I.t['b'])]}, tag='r=a')
    add('poly_sub', [P('r', 1, dir='o'), P('a'), P('b')], lambda I: {'r': [('eq', tm.sub(16, x, y)) for x, y in zip(I.t['a'], I.t['b'])]})
    add('poly_sub', [P('r', 1, dir='io'), P('a'), A('poly', 'b', 256, alias='r')], lambda I: {'r': [('eq', tm.sub(16, x, y)) for x, y in zip(I.t['a'], I.t['r'])]}, tag='r=b')
    add('poly_tomont', [P('r', 1, dir='io')], lambda I: {'r': [('form', {i: R}, *((-Q, Q) if avx else (-(Q - 1), Q - 1))) for i in I.ids['r']]})
    # --- transforms
    def ntt_e(m):
        lim = (-16384, 16384) if avx else (-1664, 1664)
        return lambda I: {'r': cat_(*[LIN(NT, I.ids['r'][256 * j:256 * j + 256], *lim) for j in range(m)])}
    def inv_e(m):
        lim = (-16384, 16384) if avx else (-(Q - 1), Q - 1)
        return lambda I: {'r': cat_(*[LIN(IN, I.ids['r'][256 * j:256 * j + 256], *lim, scale=R) for j in range(m)])}
    for m, nm in ((1, 'poly'), (k, 'polyvec')):
        add(nm + '_ntt', [P('r', m, dir='io', lo=-Q, hi=Q)], ntt_e(m))
        ir = (-32768, 32767) if avx else (-Q, Q)
        add(nm + '_invntt_tomont', [P('r', m, dir='io', lo=ir[0], hi=ir[1])], inv_e(m))
    for l in out:
        if 'ntt' in l.fn:
            l.post = 'ntt' if l.fn.endswith('_ntt') else 'inv'
            if avx: l.inorder, l.outorder = ('std', 'ntt') if l.fn.endswith('_ntt') else ('ntt', 'std')
    # --- products
    def bm_e(m):
        lim = (-2 * Q * m, 2 * Q * m) if avx else ((-2 * (Q - 1), 2 * (Q - 1)) if m == 1 else (-1664, 1664))
        def e(I):
            fs = H.basemul_forms([([I.F.atoms[i - 1] for i in I.ids['a'][256 * j:256 * j + 256]], [I.F.atoms[i - 1] for i in I.ids['b'][256 * j:256 * j + 256]]) for j in range(m)])
            return {'r': [('form', {x: c * RI % Q for x, c in f.items()}, *lim) for f in fs]}
        return e
    ar = dict(lo=-32768, hi=32767) if avx else dict(lo=-4095, hi=4095)
    add('poly_basemul_montgomery', [P('r', dir='o', order='ntt'), P('a', order='ntt', **ar), P('b', order='ntt', lo=-Q, hi=Q)], bm_e(1))
    add('polyvec_basemul_acc_montgomery', [P('r', dir='o', order='ntt'), P('a', k, order='ntt', lo=-4095 if not avx else 0, hi=4095), P('b', k, order='ntt', **(dict(lo=-Q, hi=Q) if not avx else dict(lo=-16118, hi=16118)))], bm_e(k), tag='a 12 bit')
    if avx:
        add('polyvec_basemul_acc_montgomery', [P('r', dir='o', order='ntt'), P('a', k, order='ntt', lo=-32768, hi=32767), P('b', k, order='ntt', lo=-Q, hi=Q)], bm_e(k), tag='b bounded')
        add('polyvec_basemul_acc_montgomery', [P('r', dir='o', order='ntt'), P('a', k, order='ntt', lo=-Q, hi=Q), P('b', k, order='ntt', lo=-32768, hi=32767)], bm_e(k), tag='a bounded')
    # --- serialisation
    for m, nm in ((1, 'poly'), (k, 'polyvec')):
        add(nm + '_tobytes', [B('o', 384 * m, dir='o'), P('a', m, lo=cl, hi=ch, order='ntt')],
            lambda I: {'o': [('fld', fid(I, 'a', i), (lambda x: tm.ext(x, 0, 12)), 12) for i in range(len(I.ids['a']))]})
        add(nm + '_frombytes', [P('r', m, dir='o', order='ntt'), B('b', 384 * m)],
            lambda I: {'r': [('eq', tm.zext(spec.field(I.t['b'], 12, i), 12, 16)) for i in range(len(I.t['b']) * 2 // 3)]})
    add('poly_compress', [B('o', 32 * p.dv, dir='o'), P('a', lo=cl, hi=ch)], lambda I: {'o': [('fld', fid(I, 'a', i), (lambda x: spec.t_compress(x, p.dv)), p.dv) for i in range(256)]})
    add('poly_decompress', [P('r', dir='o'), B('b', 32 * p.dv)], lambda I: {'r': [('eq', spec.t_decompress(spec.field(I.t['b'], p.dv, i), p.dv)) for i in range(256)]})
    add('polyvec_compress', [B('o', p.uvb, dir='o', slack=2 if avx else 0), P('a', k, lo=cl, hi=ch)],
        lambda I: {'o': [('fld', fid(I, 'a', i), (lambda x: spec.t_compress(x, p.du)), p.du) for i in range(256 * k)]})
    add('polyvec_decompress', [P('r', k, dir='o'), B('b', p.uvb, slack=12 if avx else 0)],
        lambda I: {'r': [('eq', spec.t_decompress(spec.field(I.t['b'][32 * p.du * (i // 256):], p.du, i % 256), p.du)) for i in range(256 * k)]})
    # --- messages
    add('poly_frommsg', [P('r', dir='o'), B('m', 32)], lambda I: {'r': [('eq', tm.ite(tm.ext(I.t['m'][i // 8], i % 8, 1), 1665, 0, 16)) for i in range(256)]})
    add('poly_tomsg', [B('o', 32, dir='o'), P('a', lo=red[0], hi=red[1])], lambda I: {'o': [('fld', fid(I, 'a', i), (lambda x: spec.t_compress(x, 1)), 1) for i in range(256)]})
    # --- noise
    for e, eta in (('eta1', p.eta1), ('eta2', 2)):
        n = 64 * eta
        sl = (32 if eta == 3 or e == 'eta1' else 0) if avx else 0
        add('poly_cbd_' + e, [P('r', dir='o'), B('b', n, align=32 if avx else 1, slack=sl)], lambda I, eta=eta: {'r': [('eq', t) for t in spec.cbd_terms(I.t['b'], eta)]})
        add('poly_getnoise_' + e, [P('r', dir='o'), B('s', 32), A('int', 'n', lo=0, hi=255, val=8)],
            lambda I, eta=eta: {'r': [('eq', t) for t in spec.cbd_terms(spec.shake256(I.t['s'] + [tm.ext(I.t['n'][0], 0, 8)], 64 * eta), eta)]})
    if avx:
        def g4(etas):
            return lambda I: {'r%d' % j: [('eq', t) for t in spec.cbd_terms(spec.shake256(I.t['s'] + [tm.ext(I.t['n%d' % j][0], 0, 8)], 64 * etas[j]), etas[j])] for j in range(4)}
        a4 = [P('r%d' % j, dir='o') for j in range(4)] + [B('s', 32)] + [A('int', 'n%d' % j, lo=0, hi=255, val=8) for j in range(4)]
        add('poly_getnoise_eta1_4x', a4, g4([p.eta1] * 4), full=H.ns(impl, k) + 'poly_getnoise_eta2_4x')
        if k == 2: add('poly_getnoise_eta1122_4x', a4, g4([3, 3, 2, 2]))
    return {l.name: l for l in out}

class Inst:
    """one symbolic instance of a contract: inputs, atoms"""
    def __init__(s, leaf, F):
        s.leaf = leaf; s.F = F; s.t = {}; s.ids = {}; s.vars = []
        for a in leaf.args:
            if a.kind == 'poly' and 'i' in a.dir and not a.alias:
                w = 16
                s.t[a.name] = [tm.sym('%s[%d]' % (a.name, i), 16, H.SECRET, **_rs(a.lo, a.hi)) for i in range(a.n)]
                s.ids[a.name] = [F.atom((a.name, i), x, a.lo, a.hi, raw=True).id for i, x in enumerate(s.t[a.name])]
            elif a.kind == 'bytes' and 'i' in a.dir:
                s.t[a.name] = [tm.sym('%s[%d]' % (a.name, i), 8, H.SECRET) for i in range(a.n)]
            elif a.kind in ('i16', 'i32'):
                w = int(a.kind[1:])
                x = tm.sym(a.name, w, H.SECRET, **_rs(a.lo, a.hi, w)); s.t[a.name] = [x]
                s.ids[a.name] = [F.atom(a.name, x, a.lo, a.hi, raw=True).id]
            elif a.kind == 'int':
                s.t[a.name] = [tm.sym(a.name, a.val, H.SECRET, **_rs(a.lo, a.hi, a.val))]
    def input_list(s):
        """[(name, i, term, lo, hi)]"""
        out = []
        for a in s.leaf.args:
            if a.name in s.t:
                lo, hi = (0, 255) if a.kind == 'bytes' else (a.lo, a.hi)
                for i, x in enumerate(s.t[a.name]): out.append((a.name, i, x, lo, hi))
        return out

def _rs(lo, hi, w=16):
    d = {}
    if lo > -(1 << (w - 1)) or hi < (1 << (w - 1)) - 1: d['srng'] = (lo, hi)
    if lo >= 0: d['rng'] = (lo, hi); d['nz'] = MASK[hi.bit_length()]
    return d

def orders(leaf, a):
    """(input order, output order) of an argument"""
    io = getattr(leaf, 'inorder', a.order); oo = getattr(leaf, 'outorder', a.order)
    return io, oo

def mpos(leaf, order, n):
    if leaf.impl == 'avx2' and order == 'ntt': return [256 * (i // 256) + H.avx_index(i % 256) for i in range(n)]
    return range(n)

def run_leaf(impl, k, name, watch=None):
    leaf = contracts(impl, k)[name]
    t0 = time.time(); res = H.Res(leaf.name)
    M = H.machine(impl, k)
    if M.world.lookup(None, leaf.full) is None and leaf.full not in M.world.asm:
        res.bad('missing', 'function %s not present' % leaf.full); H.finish(res, M, None, t0); return res
    F = Forms(); F.alias = {}
    I = Inst(leaf, F); res.inst = I
    objs = {}; args = []
    for a in leaf.args:
        if a.alias: args.append(objs[a.alias].base); continue
        if a.kind == 'poly':
            o = M.out_buf(a.name, 2 * a.n, a.align)
            if 'i' in a.dir:
                for i, m in enumerate(mpos(leaf, orders(leaf, a)[0], a.n)): M.raw_store(o, 2 * m, 2, I.t[a.name][i])
            objs[a.name] = o; args.append(o.base)
        elif a.kind == 'bytes':
            o = M.out_buf(a.name, a.n + a.slack, a.align or 1)
            if 'i' in a.dir:
                for i, x in enumerate(I.t[a.name]): M.raw_store(o, i, 1, x)
            objs[a.name] = o; args.append(o.base)
        elif a.kind == 'int': args.append(tm.zext(I.t[a.name][0], a.val, 8) if a.val < 8 else I.t[a.name][0])
        else: args.append(I.t[a.name][0])
    try:
        r = M.call(leaf.full, args)
        outs = {}
        for a in leaf.args:
            if 'o' not in a.dir: 
                continue
            o = M.objs[objs[a.name].id]
            if a.kind == 'poly': outs[a.name] = [M.raw_load(o, 2 * m, 2) for m in mpos(leaf, orders(leaf, a)[1], a.n)]
            else: outs[a.name] = [M.raw_load(o, i, 1) for i in range(a.n)]
        if leaf.ret: outs['ret'] = [r]
        # inputs must be unchanged
        for a in leaf.args:
            if a.kind in ('poly', 'bytes') and a.dir == 'i' and not a.alias:
                o = M.objs[objs[a.name].id]
                got = [M.raw_load(o, 2 * m, 2) for m in mpos(leaf, orders(leaf, a)[0], a.n)] if a.kind == 'poly' else [M.raw_load(o, i, 1) for i in range(a.n)]
                for i, (x, y) in enumerate(zip(got, I.t[a.name])):
                    if x is not y: res.bad('inmod', 'input %s[%d] modified' % (a.name, i), label='%s[%d]' % (a.name, i))
    except Violation as e:
        res.bad('violation', str(e), info=e.info, vkind=e.kind); H.finish(res, M, None, t0); return res
    except PathEnd as e:
        res.bad('pathend', str(e)); H.finish(res, M, None, t0); return res
    res.F = F; res.outs = outs
    if watch is not None: F.lemmas = watch
    for name, want in leaf.expect(I).items():
        got = outs[name]
        if want and want[0][0] == 'fld':
            got = H.refine(F, got)
            ds = want[0][3]; per = 256 * ds // 8
            for i, (_, f, fn, d) in enumerate(want):
                nodes = got[per * (i // 256):per * (i // 256) + per]
                node = spec.field(nodes, d, i % 256)
                if d == 12: H.check_residue(res, F, node, d, f, '%s field %d' % (name, i))
                else: H.check_fn(res, F, node, d, f, fn, '%s field %d' % (name, i))
            continue
        for i, (g, w) in enumerate(zip(got, want)):
            res.outputs += 1
            lab = '%s[%d]' % (name, i)
            if w[0] == 'eq':
                if g is w[1] or (type(g) is int and g == w[1]): continue
                F.same(g, w[1])
            else:
                check_form(res, F, g, w, lab)
    res.lemmas = F.lemmas
    H.finish(res, M, F, t0)
    return res

def check_form(res, F, g, w, lab):
    _, want, lo, hi = w
    want = F.norm(want)
    if type(g) is int: res.bad('value', '%s is the constant %d' % (lab, g), label=lab); return
    f = F.get(g)
    if f is not None and F.norm(f[0]) == want and lo <= f[1] and f[2] <= hi: return
    # tighter range, or congruence only visible from an earlier cut
    seen = f
    for v, fv in F.single_cuts(g, 200):
        if type(v) is tuple: continue
        if v is g: continue
        r = F.affine(g, [v], [fv[1:]])
        if r is None: continue
        (c,), d, l, h = r
        o = {a: x * c % F.q for a, x in fv[0].items()}
        if d % F.q: o[0] = (o.get(0, 0) + d) % F.q
        seen = (F.norm(o), l, h)
        if seen[0] != want: continue
        key = smt.alpha([g], [v])
        F.lemmas.setdefault(('aff', key, (tuple(fv[1:]),), (c,), d, lo, hi, F.q), None)
        return
    if seen is None: res.bad('noform', '%s: no congruence derivable' % lab, label=lab)
    else: res.bad('form', '%s: got %s, specified %s' % (lab, H.show_form(F, seen), H.show_form(F, (want, lo, hi))), label=lab)

# ------------------------------------------------------------------ concrete evaluation of a contract
class Concrete:
    """vectorised oracle and native caller for one contract"""
    def __init__(s, leaf):
        s.leaf = leaf
        s.F = Forms(); s.F.alias = {}
        s.I = Inst(leaf, s.F)
        s.want = leaf.expect(s.I)
        s.inputs = s.I.input_list()
        s.idx = {(n, i): j for j, (n, i, _, _, _) in enumerate(s.inputs)}
        s.sym = [x[2] for x in s.inputs]
        s.aid = {}
        for n, l in s.I.ids.items():
            for i, a in enumerate(l): s.aid[a] = s.idx[(n, i)]
        s._prep()
    def _prep(s):
        s.plan = {}
        for name, want in s.want.items():
            k = want[0][0]
            if k == 'eq': s.plan[name] = ('eq', [w[1] for w in want]); continue
            forms = [w[1] for w in want]
            lin = all(type(a) is int for f in forms for a in f)
            if lin:
                m = np.zeros((len(forms), len(s.inputs)), dtype=np.int64); c0 = np.zeros(len(forms), dtype=np.int64)
                for i, f in enumerate(forms):
                    for a, c in f.items():
                        if a == 0: c0[i] = c
                        else: m[i, s.aid[a]] = c
                pl = ('lin', m, c0)
            else:
                n = max(len(f) for f in forms)
                A_ = np.zeros((len(forms), n), dtype=np.int64); B_ = A_.copy(); C_ = A_.copy()
                for i, f in enumerate(forms):
                    for j, (a, c) in enumerate(f.items()): A_[i, j] = s.aid[a[0]]; B_[i, j] = s.aid[a[1]]; C_[i, j] = c
                pl = ('bil', A_, B_, C_)
            if k == 'fld':
                d = want[0][3]; h = tm.sym('hole_res', 32, 0, rng=(0, Q - 1), nz=0xfff)
                ft = want[0][2](h)
                tab = lemma.np_eval([ft], [h], [np.arange(Q)], Q)[0].astype(np.int64)
                s.plan[name] = ('fld', pl, tab, d)
            else: s.plan[name] = ('form', pl, np.array([w[2] for w in want]), np.array([w[3] for w in want]))
    def residues(s, pl, X):
        if pl[0] == 'lin':
            # exact: split to avoid float; values < 3329 * 3329 * 768 fits int64
            return ((X % Q) @ pl[1].T + pl[2]) % Q
        Y = X % Q
        r = np.zeros((X.shape[0], pl[1].shape[0]), dtype=np.int64)
        for j in range(pl[1].shape[1]):
            r += Y[:, pl[1][:, j]] * Y[:, pl[2][:, j]] % Q * pl[3][:, j]
        return r % Q
    def check(s, X, Y):
        """X: (n, inputs) signed values; Y: name -> (n, elements) outputs (signed int16 or bytes).  -> boolean array of bad rows"""
        n = X.shape[0]; bad = np.zeros(n, bool); where = [None]
        for name, pl in s.plan.items():
            y = Y[name].astype(np.int64)
            if pl[0] == 'eq':
                cols = [X[:, j] for j in range(X.shape[1])]
                ws = lemma.np_eval(pl[1], s.sym, cols, n)
                w = [t.w if type(t) is T else 16 for t in pl[1]]
                e = np.stack([lemma.signed_np(v, 16) if ww == 16 else v.astype(np.int64) for v, ww in zip(ws, w)], 1)
                b = e != y
            elif pl[0] == 'form':
                r = s.residues(pl[1], X)
                b = ((y - r) % Q != 0) | (y < pl[2]) | (y > pl[3])
            else:
                d = pl[3]; r = pl[2][s.residues(pl[1], X)]       # expected fields
                e = packnp(r, d)
                b = e != y
            bb = b.any(1)
            if bb.any() and where[0] is None:
                i = int(np.nonzero(bb)[0][0]); j = int(np.nonzero(b[i])[0][0]); where[0] = (i, name, j)
            bad |= bb
        return bad, where[0]
    # native side
    def bind(s, lib):
        import ctypes
        from .native import Buf
        s.fn = getattr(lib, s.leaf.full)
        s.fn.restype = {None: None, 16: ctypes.c_int16, 32: ctypes.c_int32}[s.leaf.ret]
        s.bufs = {}; s.args = []
        for a in s.leaf.args:
            if a.alias: s.args.append(('b', s.bufs[a.alias])); continue
            if a.kind == 'poly': b = Buf(2 * a.n, a.align); s.bufs[a.name] = b; s.args.append(('b', b))
            elif a.kind == 'bytes': b = Buf(a.n + a.slack, a.align or 1); s.bufs[a.name] = b; s.args.append(('b', b))
            elif a.kind == 'i16': s.args.append(('s', ctypes.c_int16, a.name))
            elif a.kind == 'i32': s.args.append(('s', ctypes.c_int32, a.name))
            else: s.args.append(('s', ctypes.c_uint16 if a.val > 8 else ctypes.c_uint8, a.name))
        s.cols = {}
        j = 0
        for a in s.leaf.args:
            if a.name in s.I.t: s.cols[a.name] = (j, j + len(s.I.t[a.name])); j += len(s.I.t[a.name])
    def native(s, X):
        n = X.shape[0]; Y = {}
        ins = []; outs = []
        for a in s.leaf.args:
            if a.alias or a.kind in ('i16', 'i32', 'int'): continue
            lo, hi = s.cols.get(a.name, (0, 0))
            if 'i' in a.dir: ins.append((a, s.bufs[a.name], lo, hi, np.array(list(mpos(s.leaf, orders(s.leaf, a)[0], a.n)))))
            if 'o' in a.dir:
                outs.append((a, s.bufs[a.name], np.array(list(mpos(s.leaf, orders(s.leaf, a)[1], a.n)))))
                Y[a.name] = np.zeros((n, a.n), dtype=np.int64)
        if s.leaf.ret: Y['ret'] = np.zeros((n, 1), dtype=np.int64)
        views = {b: (buf.v.view(np.int16) if a.kind == 'poly' else buf.v) for a in s.leaf.args if a.name in s.bufs for b, buf in [(a.name, s.bufs[a.name])]}
        mem = {}
        for a, buf, lo, hi, mp in ins:
            m = np.zeros((n, a.n), dtype=np.int16 if a.kind == 'poly' else np.uint8)
            m[:, mp] = X[:, lo:hi]; mem[a.name] = m
        self_ok = True
        for r in range(n):
            for a, buf, lo, hi, mp in ins: views[a.name][:a.n] = mem[a.name][r]
            av = []
            for x in s.args: av.append(x[1].ptr if x[0] == 'b' else x[1](int(X[r, s.cols[x[2]][0]])))
            ret = s.fn(*av)
            if s.leaf.ret: Y['ret'][r, 0] = ret
            for a, buf, mp in outs: Y[a.name][r] = views[a.name][:a.n][mp]
        return Y

def packnp(f, d):
    n, m = f.shape
    bits = ((f[:, :, None] >> np.arange(d)) & 1).astype(np.uint8).reshape(n, m * d)
    return np.packbits(bits, axis=1, bitorder='little').astype(np.int64)
