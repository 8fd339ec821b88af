"""Symbolic runs of the KEM entry points over an uninterpreted indcpa layer and Keccak permutation."""
import time
from . import terms as tm, spec, smt, harness as H
from .terms import T, MASK
from .forms import Forms
from .exec import Violation, Unsupported, PathEnd, SECRET, PUBLIC, UNINIT, STATE, PRIOR
from .harness import ns, read, read_ptr, write_ptr

def tkey(v): return tuple(x if type(x) is int else ('t', x.id) for x in v)

def _env(seed):
    import random
    class E(dict):
        def __missing__(s, k):
            r = random.Random('%s/%s' % (k.a[0], seed)); v = r.getrandbits(k.w) & k.nz
            if k.iv: v = k.iv[0] + v % (k.iv[1] - k.iv[0] + 1)
            return v
    return E()

class Memo:
    """uninterpreted function: equal arguments (identical terms, or proved equal by the solver) give equal results"""
    def __init__(s): s.exact = {}; s.byname = {}; s.envs = []
    def get(s, name, args, make):
        k = (name,) + tuple(tkey(a) for a in args)
        r = s.exact.get(k)
        if r is not None: return r
        flat = [x for a in args for x in a]
        fp = None
        if s.byname.get(name):
            fp = s.fp(flat)
            for f2, flat2, r2 in s.byname[name]:
                if f2 == fp and len(flat2) == len(flat) and s.equal(flat, flat2): s.exact[k] = r2; return r2
        r = s.exact[k] = make(len(s.exact))
        s.byname.setdefault(name, []).append((fp if fp is not None else s.fp(flat), flat, r))
        return r
    def fp(s, flat):
        out = []
        for seed in (1, 2):
            ts = [x for x in flat if type(x) is T]
            env = _env(seed)
            full = {x: env[x] for x in tm.syms(ts)}
            vs = iter(tm.evaluate(ts, full))
            out.append(tuple(x if type(x) is int else next(vs) for x in flat))
        return tuple(out)
    def equal(s, a, b):
        for x, y in zip(a, b):
            if x is y or (type(x) is int and type(y) is int and x == y): continue
            w = x.w if type(x) is T else y.w
            r, env = smt.bv_check([tm.xor(1, tm.eq(w, x, y), 1)], 10, 'args')
            if r == 'sat': s.envs.append({str(t.a[0]): v for t, v in env.items()})
            if r != 'unsat': return False
        return True

class PermStub:
    """KeccakF[1600] as an uninterpreted function of its 25 lanes (the permutation itself is decided by C12)"""
    def __init__(s): s.memo = Memo(); s.calls = 0
    def perm(s, lanes):
        def make(n):
            lab = 0
            for x in lanes: lab |= tm.lab_of(x)
            return [tm.sym('keccak%d.%d' % (n, i), 64, lab) for i in range(25)]
        return list(s.memo.get('perm', [lanes], make))
    def __call__(s, M, a):
        s.calls += 1
        p = a[0]
        o, off = M.find(p, 200, True, 8)
        r = s.perm([M.raw_load(o, off + 8 * i, 8) for i in range(25)])
        for i in range(25): M.raw_store(o, off + 8 * i, 8, r[i])
    def spec_perm(s): return s.perm if s.calls else spec.keccak_f

PERM = 'KeccakF1600_StatePermute'

class IndcpaStub:
    """key generation, encryption and decryption of the public-key scheme as uninterpreted functions of their input bytes
    (the functions themselves are decided by C03 and C11)"""
    def __init__(s, impl, k, enclab=PUBLIC):
        s.impl = impl; s.k = k; s.p = spec.PAR[k]; s.memo = Memo(); s.enclab = enclab; s.calls = []
    def f(s, name, args, outs):
        """args: byte lists; outs: [(name, n, lab)]"""
        def make(i):
            extra = 0
            for a in args:
                for x in a: extra |= tm.lab_of(x) & (UNINIT | STATE | PRIOR)
            return [[tm.sym('%s%d.%s[%d]' % (name, i, nm, j), 8, lab | extra) for j in range(n)] for nm, n, lab in outs]
        return s.memo.get(name, args, make)
    def kp(s, d): return s.f('kp', [d], [('pk', s.p.pkb, PUBLIC), ('isk', s.p.iskb, SECRET)])
    def enc(s, m, pk, coins): return s.f('enc', [m, pk, coins], [('ct', s.p.ctb, s.enclab)])[0]
    def dec(s, ct, isk): return s.f('dec', [ct, isk], [('m', 32, SECRET)])[0]
    def hooks(s):
        n = ns(s.impl, s.k); p = s.p
        def h_kp(M, a):
            d = read_ptr(M, a[2], 32)
            pk, isk = s.kp(d)
            write_ptr(M, a[0], pk); write_ptr(M, a[1], isk); s.calls.append('keypair')
        def h_enc(M, a):
            m = read_ptr(M, a[1], 32); pk = read_ptr(M, a[2], p.pkb); co = read_ptr(M, a[3], 32)
            write_ptr(M, a[0], s.enc(m, pk, co)); s.calls.append('enc')
        def h_dec(M, a):
            ct = read_ptr(M, a[1], p.ctb); isk = read_ptr(M, a[2], p.iskb)
            write_ptr(M, a[0], s.dec(ct, isk)); s.calls.append('dec')
        return {n + 'indcpa_keypair_derand': h_kp, n + 'indcpa_enc': h_enc, n + 'indcpa_dec': h_dec}

class RandStub:
    """randombytes as a stream of fresh symbolic bytes"""
    def __init__(s): s.got = []
    def __call__(s, M, a):
        p, n = a
        if type(n) is not int: raise Unsupported('randombytes length')
        if n:
            v = [tm.sym('rnd[%d]' % (len(s.got) + i), 8, SECRET) for i in range(n)]
            s.got += v; write_ptr(M, p, v)

def frame(res, M, ins):
    """declared inputs unchanged, nothing else written"""
    for name, (o, vals) in ins.items():
        got = read(M, o, 0, len(vals))
        for i, (a, b) in enumerate(zip(got, vals)):
            if a is not b and not (type(a) is int and a == b): res.bad('frame', 'input %s[%d] modified' % (name, i), label=name); break

def outlabels(res, outs):
    for name, vals in outs.items():
        l = 0
        for v in vals: l |= tm.lab_of(v)
        if l & (PRIOR | UNINIT): res.bad('label', '%s depends on prior output contents or uninitialised memory' % name, label=name)
        if l & STATE: res.bad('label', '%s depends on static state' % name, label=name)

def cut_same(res, F, got, want, label, leaves):
    res.where_syms[(label,)] = leaves
    same = [(a, b) for a, b in zip(got, want) if a is b or (type(a) is int and type(b) is int and a == b)]
    if same:
        r = smt.differ(same)
        if r != 'unsat': res.bad('value', 'solver: %s for terms of %s' % (r, label), label=label)
    for i, (a, b) in enumerate(zip(got, want)):
        res.outputs += 1
        if a is b or (type(a) is int and type(b) is int and a == b): continue
        n0 = len(F.lemmas)
        try: F.same(a, b, leaves)
        except Exception as e: res.bad('cut', '%s[%d]: %s' % (label, i, e), label=label)
        lem = next(reversed(F.lemmas)) if F.lemmas else None
        res.where.setdefault(lem, (label, i))

def run_kem(impl, k, op, offset=None):
    """op: keypair_derand | enc_derand | dec | keypair | enc"""
    t0 = time.time(); p = spec.PAR[k]
    res = H.Res('%s/K=%d/kem_%s' % (impl, k, op)); res.where = {}; res.where_syms = {}
    S = IndcpaStub(impl, k, SECRET if op == 'dec' else PUBLIC); P = PermStub(); R = RandStub()
    hooks = S.hooks(); hooks[PERM] = P; hooks['randombytes'] = R
    n = ns(impl, k)
    M = H.machine(impl, k, hooks)
    F = Forms(); F.alias = {}; res.F = F
    ins = {}; outb = {}
    def inp(name, n_, lab): ins[name] = M.sym_buf(name, n_, lab); return ins[name][0].base
    def out(name, n_): outb[name] = (M.out_buf(name, n_), n_); return outb[name][0].base
    try:
        if op == 'keypair_derand': args = [out('pk', p.pkb), out('sk', p.skb), inp('coins', 64, SECRET)]
        elif op == 'enc_derand': args = [out('ct', p.ctb), out('ss', 32), inp('pk', p.pkb, PUBLIC), inp('coins', 32, SECRET)]
        elif op == 'dec':
            args = [out('ss', 32), inp('ct', p.ctb, PUBLIC)]
            o, v = M.sym_buf('sk', p.skb, SECRET)
            # the embedded public key and its hash are public
            for i in range(p.pvb, p.pvb + p.pkb + 32): v[i] = tm.sym('sk[%d]p' % i, 8, PUBLIC); M.raw_store(o, i, 1, v[i])
            ins['sk'] = (o, v); args.append(o.base)
        elif op == 'keypair': args = [out('pk', p.pkb), out('sk', p.skb)]
        else: args = [out('ct', p.ctb), out('ss', 32), inp('pk', p.pkb, PUBLIC)]
        ret = M.call(n + op, args)
        outs = {nm: read(M, o, 0, m) for nm, (o, m) in outb.items()}
        frame(res, M, ins)
    except Violation as e:
        res.bad('violation', str(e), info=e.info, vkind=e.kind); H.finish(res, M, None, t0); return res
    except PathEnd as e:
        res.bad('pathend', str(e)); H.finish(res, M, None, t0); return res
    except Unsupported as e:
        res.bad('unsupported', str(e)); H.finish(res, M, None, t0); return res
    res.outs = outs; res.ins = {a: v for a, (o, v) in ins.items()}; res.stub = S; res.perm = P
    I = res.ins; perm = P.spec_perm()
    if type(ret) is int:
        if ret & 0xffffffff: res.bad('ret', 'returns %d' % ret)
    else: cut_same(res, F, [ret], [0], 'ret', sorted(tm.syms([ret]), key=lambda t: t.id))
    leaves = []
    if op in ('keypair', 'keypair_derand'):
        if op == 'keypair':
            if len(R.got) != 64: res.bad('random', 'draws %d random bytes instead of 64' % len(R.got))
            co = (R.got + [0] * 64)[:64]
        else: co = I['coins']
        pk, isk = S.kp(co[:32])
        want = dict(pk=pk, sk=isk + pk + spec.sha3_256(pk, perm) + co[32:64])
    elif op in ('enc', 'enc_derand'):
        if op == 'enc':
            if len(R.got) != 32: res.bad('random', 'draws %d random bytes instead of 32' % len(R.got))
            co = (R.got + [0] * 32)[:32]
        else: co = I['coins']
        g = spec.sha3_512(co + spec.sha3_256(I['pk'], perm), perm)
        want = dict(ct=S.enc(co, I['pk'], g[32:]), ss=g[:32])
    else:
        sk = I['sk']; ct = I['ct']
        m = S.dec(ct, sk[:p.pvb])
        pk = sk[p.pvb:p.pvb + p.pkb]; h = sk[p.pvb + p.pkb:p.skb - 32]; z = sk[p.skb - 32:]
        g = spec.sha3_512(m + h, perm)
        c2 = S.enc(m, pk, g[32:])
        rk = spec.shake256(z + ct, 32, perm)
        same = 1
        for a, b in zip(ct, c2): same = tm.and_(1, same, tm.eq(8, a, b))
        want = dict(ss=[tm.ite(same, a, b, 8) for a, b in zip(g[:32], rk)])
        res.model = dict(m=m, c2=c2, g=g, rk=rk)
    outlabels(res, outs)
    for nm, w in want.items():
        sy = sorted(tm.syms([x for x in w + outs[nm] if type(x) is T]), key=lambda t: t.id)
        cut_same(res, F, outs[nm], w, nm, sy)
    H.finish(res, M, F, t0)
    return res

def job(impl, k, ops, ct=False):
    from . import runner
    out = []
    for op in ops:
        r = run_kem(impl, k, op)
        d = runner.summarize(r, ct)
        out.append(d)
    return out
