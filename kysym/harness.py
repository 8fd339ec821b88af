"""Harnesses: symbolic runs of the real entry points."""
import time, traceback
from . import terms as tm, build, spec, smt, exec as ex
from .exec import Machine, Violation, Unsupported, PathEnd, SECRET, PUBLIC, UNINIT, STATE, PRIOR
from .forms import Forms
from .terms import T, MASK, rng, srng

Q = 3329
def ns(impl, k): return 'pqcrystals_kyber%d_%s_' % (256 * k, impl)

_worlds = {}
def world(impl, k, **kw):
    key = (impl, k) + tuple(sorted(kw.items()))
    if key not in _worlds: _worlds[key] = build.world(impl, k, **kw)
    return _worlds[key]

class Res:
    """outcome of one harness run"""
    def __init__(s, name):
        s.name = name; s.problems = []; s.lemmas = {}; s.steps = 0; s.instrs = 0; s.funcs = set(); s.events = []
        s.obl = []; s.nodes = 0; s.outputs = 0; s.wall = 0; s.info = {}; s.witness = 0
    def bad(s, kind, msg, **kw): s.problems.append(dict(kind=kind, msg=msg, **kw))

def avx_index(c):
    """memory position of standard NTT coefficient c in the AVX2 in-memory order"""
    h, r = divmod(c, 128); l, x = divmod(r, 8)
    return 128 * h + 16 * x + l

def mempos(impl, c): return avx_index(c) if impl == 'avx2' else c

def read(M, o, off, n):
    o = M.objs[o.id]
    return [M.raw_load(o, off + i, 1) for i in range(n)]

def read_ptr(M, p, n):
    if p.__class__ is not int: raise Unsupported('symbolic pointer')
    o, off = M.find(p, n, False, 1)
    return [M.raw_load(o, off + i, 1) for i in range(n)]

def write_ptr(M, p, vals, nb=1, align=1):
    o, off = M.find(p, len(vals) * nb, True, align)
    for i, v in enumerate(vals): M.raw_store(o, off + i * nb, nb, v)

class GenStub:
    """stand-in for gen_matrix (decided separately by C08/C20): arbitrary entries in [0,q)"""
    def __init__(s, impl, k): s.impl = impl; s.k = k; s.calls = []
    def __call__(s, M, a):
        k = s.k
        seed = read_ptr(M, a[1], 32)
        n = len(s.calls)
        t = a[2]
        s.calls.append((seed, t))
        A = [[[tm.sym('A%d[%d][%d][%d]' % (n, i, j, c), 16, 0, rng=(0, Q - 1), srng=(0, Q - 1), nz=0xfff) for c in range(256)] for j in range(k)] for i in range(k)]
        o, off = M.find(a[0], k * k * 512, True, 32 if s.impl == 'avx2' else 2)
        for i in range(k):
            for j in range(k):
                for c in range(256):
                    M.raw_store(o, off + (i * k + j) * 512 + 2 * mempos(s.impl, c), 2, A[i][j][c])
        s.A = A
        return 0

def machine(impl, k, hooks=None, **kw):
    M = Machine(world(impl, k, **kw), hooks)
    M.solver = smt.Ctx()
    return M

def finish(res, M, F=None, t0=None):
    res.M = M; res.steps = M.steps; res.instrs = M.instrs; res.funcs = set(M.funcs_run); res.events = M.events; res.obl = M.obl
    if F is not None: res.lemmas = F.lemmas
    res.nodes = tm.nnodes()
    if t0: res.wall = time.time() - t0

# ------------------------------------------------------------------ spec forms
def lin(F, rows, atoms, skip=None):
    """linear forms for matrix rows over a list of atoms"""
    ids = [a.id for a in atoms]
    return [{i: c for i, c in zip(ids, row) if c} for row in rows]

def addf(*fs):
    out = {}
    for f in fs:
        for a, c in f.items(): out[a] = (out.get(a, 0) + c) % Q
    return {a: c for a, c in out.items() if c}

def bil(a, b, c=1):
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    return {k: c % Q}

def basemul_forms(pairs):
    """sum of products of lists of atoms (a[256], b[256])"""
    out = []
    for i in range(128):
        g = spec.GAMMA[i]
        out.append(addf(*([bil(a[2 * i], b[2 * i]) for a, b in pairs] + [bil(a[2 * i + 1], b[2 * i + 1], g) for a, b in pairs])))
        out.append(addf(*([bil(a[2 * i], b[2 * i + 1]) for a, b in pairs] + [bil(a[2 * i + 1], b[2 * i]) for a, b in pairs])))
    return out

def atomf(a): return {a.id: 1}

# ------------------------------------------------------------------ output checks
def refine(F, roots):
    """replace formed nodes with a small non-negative range by aliases whose high bits are known zero"""
    m = {}; seen = set(); st = [r for r in roots if type(r) is T]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        if 12 <= n.w <= 64 and n.op != "sym":
            f = F.get(n)
            if f is None and n.w > 16:
                y = tm.ext(n, 0, 16)          # the low half may be a residue even when the full sum is not
                f = F.get(y) if type(y) is T and y.op == 'ext' else None
                if f is not None and f[1] >= 0 and f[2] < 1 << 15:
                    al = F.alias.get(y)
                    if al is None:
                        al = tm.sym('alias#%d' % y.id, 16, y.lab, nz=MASK[f[2].bit_length()] if f[2] else 0, rng=f[1:], srng=f[1:])
                        F.alias[y] = al; F.memo[al] = f
                    m[n] = tm.cat(((al, 16), (tm.ext(n, 16, n.w - 16), n.w - 16)))
                    continue
                f = None
            if f is not None:
                if n.w <= 32 and f[1] >= 0 and f[2] < 1 << min(13, n.w - 1):
                    nz = MASK[f[2].bit_length()] if f[2] else 0
                    if n.nz & ~nz:
                        al = F.alias.get(n)
                        if al is None:
                            al = tm.sym('alias#%d' % n.id, n.w, n.lab, nz=nz, rng=f[1:], srng=f[1:])
                            F.alias[n] = al; F.memo[al] = f
                        m[n] = al
                continue
        st += tm.children(n)
    if not m: return list(roots)
    for n in list(m):
        # a constant offset of an aliased sum shares its alias
        if n.op == 'add' and len(n.a[1]) == 1 and n.a[1][0][0] == 1 and n.a[1][0][1].op != 'sym' and m[n].op == 'sym':
            m[n.a[1][0][1]] = tm.add(n.w, m[n], -n.a[0] & MASK[n.w])
    memo = {}
    return [tm.subst(r, m, memo) if type(r) is T else r for r in roots]

def show_form(F, f, n=4):
    if f is None: return None
    return ' + '.join('%d*%s' % (c, '*'.join(str(F.atoms[x - 1].name) for x in (k if type(k) is tuple and k[0] != '#' else (k,)) if type(x) is int and x) or '1') for k, c in list(f[0].items())[:n]) + (' ...' if len(f[0]) > n else '') + ' in [%d,%d]' % f[1:]

def check_residue(res, F, node, w, want, label):
    """w-bit field equals the canonical residue of form want"""
    n16 = tm.zext(node, w, 16)
    if type(n16) is T:
        f = F.get(n16)
        if f is not None and f[0] == F.norm(want) and f[1] >= 0 and f[2] < Q:
            res.outputs += 1
            return
    check_fn(res, F, node, w, want, lambda x: tm.ext(x, 0, w), label)

def check_fn(res, F, node, w, want, fn, label):
    """w-bit field equals fn(canonical residue) of a value with form want"""
    res.outputs += 1
    want = F.norm(want)
    if type(node) is int: res.bad('value', '%s is the constant %d' % (label, node), label=label); return
    seen = None
    for v, f in F.single_cuts(node, 200):
        if type(v) is tuple: continue
        f = (F.norm(f[0]), f[1], f[2])
        if f[0] == want:
            h = F.hole(v.w, f[1], f[2])
            s = fn(spec.t_canon(h, v.w, f[1], f[2]))
            F.same(tm.subst(node, {v: h}) if v is not node else h, s, [h], ((f[1], f[2]),))
            return
        seen = f
    if seen is None: res.bad('noform', '%s: no congruence derivable' % label, label=label)
    else: res.bad('form', '%s: got %s, specified %s' % (label, show_form(F, seen), show_form(F, (want, 0, 0))), label=label)

def check_bytes(res, F, got, want, label):
    for i, (a, b) in enumerate(zip(got, want)):
        res.outputs += 1
        if a is b or (type(a) is int and a == b): continue
        F.same(a, b)

def cbd_atoms(F, name, buf, eta):
    return [F.atom((name, c), t, -eta, eta) for c, t in enumerate(spec.cbd_terms(buf, eta))]

def field_atoms(F, name, bs, d):
    """unsigned d-bit fields as atoms (value = the field)"""
    out = []
    for c in range(256):
        f = spec.field(bs, d, c)
        t = tm.zext(f, d, 16)
        out.append(F.atom((name, c), t, 0, (1 << d) - 1))
    return out

def decomp_atoms(F, name, bs, d):
    return [F.atom((name, c), spec.t_decompress(spec.field(bs, d, c), d), 0, Q - 1) for c in range(256)]

# ------------------------------------------------------------------ indcpa
def run_indcpa(impl, k, op, mode='forms', lab=None):
    """op: keypair | enc | dec"""
    t0 = time.time()
    p = spec.PAR[k]; res = Res('%s/K=%d/indcpa_%s' % (impl, k, op))
    gen = GenStub(impl, k)
    n = ns(impl, k)
    M = machine(impl, k, {n + 'gen_matrix': gen})
    L = SECRET
    try:
        if op == 'keypair':
            pk = M.out_buf('pk', p.pkb); sk = M.out_buf('sk', p.iskb)
            co, coins = M.sym_buf('d', 32, L)
            M.call(n + 'indcpa_keypair_derand', [pk.base, sk.base, co.base])
            outs = (read(M, pk, 0, p.pkb), read(M, sk, 0, p.iskb)); ins = dict(d=coins)
        elif op == 'enc':
            c = M.out_buf('c', p.ctb); mo, m = M.sym_buf('m', 32, L); po, pk = M.sym_buf('pk', p.pkb, PUBLIC); co, coins = M.sym_buf('coins', 32, L)
            M.call(n + 'indcpa_enc', [c.base, mo.base, po.base, co.base])
            outs = (read(M, c, 0, p.ctb),); ins = dict(m=m, pk=pk, coins=coins)
        else:
            mo = M.out_buf('m', 32); co, c = M.sym_buf('c', p.ctb, PUBLIC); so, sk = M.sym_buf('sk', p.iskb, L)
            M.call(n + 'indcpa_dec', [mo.base, co.base, so.base])
            outs = (read(M, mo, 0, 32),); ins = dict(c=c, sk=sk)
    except Violation as e:
        res.bad('violation', str(e), info=e.info, vkind=e.kind); finish(res, M, None, t0); return res
    except PathEnd as e:
        res.bad('pathend', str(e)); finish(res, M, None, t0); return res
    except Unsupported as e:
        if mode != 'run': raise
        res.bad('unsupported', str(e)); finish(res, M, None, t0); return res
    res.ins = ins; res.outs = outs
    res.M = M
    if mode == 'run': finish(res, M, None, t0); return res
    F = Forms(); F.alias = {}
    res.F = F
    NT = spec.ntt_matrix(); IN = spec.invntt_matrix()
    if op in ('keypair', 'enc'):
        if len(gen.calls) != 1: res.bad('calls', 'gen_matrix called %d times' % len(gen.calls)); finish(res, M, F, t0); return res
        A = [[[F.atom(('A', i, j, c), gen.A[i][j][c], 0, Q - 1, raw=True) for c in range(256)] for j in range(k)] for i in range(k)]
        seed, tr = gen.calls[0]
        if tr.__class__ is not int or bool(tr) != (op == 'enc'): res.bad('transposed', 'gen_matrix called with transposed=%s' % tr)
    if op == 'keypair':
        g = spec.sha3_512(ins['d'] + [k])
        rho, sig = g[:32], g[32:]
        check_bytes(res, F, seed, rho, 'matrix seed')
        s = [cbd_atoms(F, 's%d' % i, spec.shake256(sig + [i], 64 * p.eta1), p.eta1) for i in range(k)]
        e = [cbd_atoms(F, 'e%d' % i, spec.shake256(sig + [k + i], 64 * p.eta1), p.eta1) for i in range(k)]
        sh = [[F.target(('sh', i, c), f) for c, f in enumerate(lin(F, NT, s[i]))] for i in range(k)]
        eh = [[F.target(('eh', i, c), f) for c, f in enumerate(lin(F, NT, e[i]))] for i in range(k)]
        pkb = refine(F, outs[0][:p.pvb]); skb = refine(F, outs[1])
        for i in range(k):
            th = basemul_forms([(A[i][j], sh[j]) for j in range(k)])
            for c in range(256):
                check_residue(res, F, spec.field(skb[384 * i:384 * i + 384], 12, c), 12, atomf(sh[i][c]), 'sk s[%d][%d]' % (i, c))
                check_residue(res, F, spec.field(pkb[384 * i:384 * i + 384], 12, c), 12, addf(th[c], atomf(eh[i][c])), 'pk t[%d][%d]' % (i, c))
        check_bytes(res, F, outs[0][p.pvb:], rho, 'pk seed')
    elif op == 'enc':
        check_bytes(res, F, seed, ins['pk'][p.pvb:], 'matrix seed')
        co = ins['coins']
        r = [cbd_atoms(F, 'r%d' % i, spec.shake256(co + [i], 64 * p.eta1), p.eta1) for i in range(k)]
        e1 = [cbd_atoms(F, 'e1_%d' % i, spec.shake256(co + [k + i], 128), 2) for i in range(k)]
        e2 = cbd_atoms(F, 'e2', spec.shake256(co + [2 * k], 128), 2)
        t = [field_atoms(F, 't%d' % i, ins['pk'][384 * i:384 * i + 384], 12) for i in range(k)]
        mp = [F.atom(('m', c), tm.ite(tm.ext(ins['m'][c // 8], c % 8, 1), 1665, 0, 16), 0, 1665) for c in range(256)]
        rh = [[F.target(('rh', i, c), f) for c, f in enumerate(lin(F, NT, r[i]))] for i in range(k)]
        uh = [[F.target(('uh', i, c), f) for c, f in enumerate(basemul_forms([(A[i][j], rh[j]) for j in range(k)]))] for i in range(k)]
        vh = [F.target(('vh', c), f) for c, f in enumerate(basemul_forms([(t[j], rh[j]) for j in range(k)]))]
        u = [[F.target(('u', i, c), f) for c, f in enumerate(lin(F, IN, uh[i]))] for i in range(k)]
        v = [F.target(('v', c), f) for c, f in enumerate(lin(F, IN, vh))]
        cb = refine(F, outs[0])
        for i in range(k):
            for c in range(256):
                check_fn(res, F, spec.field(cb[32 * p.du * i:32 * p.du * (i + 1)], p.du, c), p.du, addf(atomf(u[i][c]), atomf(e1[i][c])),
                         lambda x: spec.t_compress(x, p.du), 'ct u[%d][%d]' % (i, c))
        for c in range(256):
            check_fn(res, F, spec.field(cb[p.uvb:], p.dv, c), p.dv, addf(atomf(v[c]), atomf(e2[c]), atomf(mp[c])), lambda x: spec.t_compress(x, p.dv), 'ct v[%d]' % c)
    else:
        cb = ins['c']
        u = [decomp_atoms(F, 'u%d' % i, cb[32 * p.du * i:32 * p.du * (i + 1)], p.du) for i in range(k)]
        v = decomp_atoms(F, 'v', cb[p.uvb:], p.dv)
        s = [field_atoms(F, 's%d' % i, ins['sk'][384 * i:384 * i + 384], 12) for i in range(k)]
        uh = [[F.target(('uh', i, c), f) for c, f in enumerate(lin(F, NT, u[i]))] for i in range(k)]
        wh = [F.target(('wh', c), f) for c, f in enumerate(basemul_forms([(s[j], uh[j]) for j in range(k)]))]
        w = [F.target(('w', c), f) for c, f in enumerate(lin(F, IN, wh))]
        mb = refine(F, outs[0])
        for c in range(256):
            check_fn(res, F, spec.field(mb, 1, c), 1, addf(atomf(v[c]), {w[c].id: Q - 1}), lambda x: spec.t_compress(x, 1), 'message bit %d' % c)
    finish(res, M, F, t0)
    return res
