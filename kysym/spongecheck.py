"""Checks C12 and C13."""
import ctypes, hashlib, os, random, time
from . import sponge, runner, spec, native, build, smt, harness as H, terms as tm
from .sponge import RATE, DOM, OUT
from .runner import log

def crit(r, base=0):
    """lengths around the ends of the current and the next block when base bytes are already in the block"""
    out = [0, 1, 2, 7, 8, 9]
    for e in (r - base, 2 * r - base): out += [e - 1, e, e + 1]
    out += [r - 1, r, r + 1, r // 2]
    return sorted({x for x in out if x >= 0})

def scripts12(tier, full):
    """full: every residue; otherwise the thinned set used for a second copy of the same source"""
    rnd = random.Random(12); out = []; q = tier == 'quick'
    for fn in ('sha3_256', 'sha3_512'):
        r = RATE[fn]
        for n in list(range(0, (2 if q else 5) * r + 10)) + [3 * r - 1, 3 * r, 3 * r + 1, 4 * r, 5 * r - 1, 800, 1184, 1568, 1024, 2048] + ([4096, 65535, 65536, 65537, 70001] if not q else [65537 + r]): out.append(('shot', fn, n))
    for fn in ('shake128', 'shake256'):
        r = RATE[fn]; C = crit(r)
        for n in range(0, (2 if q else 4) * r + 3): out.append(('shot', fn, n, C[n % len(C)]))
        for i, n in enumerate(range(0, (2 if q else 4) * r + 3)): out.append(('shot', fn, C[(i + i // len(C)) % len(C)], n))
        for n in (65536 + r - 1,) if q else (4096, 65535, 65536, 65537, 65536 + r): out += [('shot', fn, n, 33), ('shot', fn, 33, n), ('inc', fn, [3, n], [('s', 5), ('s', n)])]
        for i, n in enumerate(range(0, (1 if q else 2) * r + 2)):
            a = rnd.choice(C); b = rnd.choice(C)
            out.append(('once', fn, n, [[('b', 1), ('b', 2), ('s', a), ('s', b)], [('s', a), ('s', b)], [('b', 0), ('b', 1), ('s', r), ('b', 1)], [('b', 3), ('s', 0), ('s', a)]][i % 4]))
        # absorb splits (base p, then n) and squeeze splits (base p, then m): every base meets every critical length
        for p in range(0, r + 1):
            cs = crit(r, p)
            for n in cs:
                if q and (p * 7 + n) % 3 and n not in (r - p, r - p - 1, r - p + 1) : continue
                y = rnd.choice(crit(r, p))
                out.append(('inc', fn, [p, n], [('s', p), ('s', y), ('s', rnd.choice((1, r, r - 1, 3)))]))
            for y in (0, 1, r - p, r - p + 1, 2 * r - p): out.append(('inc', fn, [rnd.randrange(r)], [('s', p), ('s', y), ('s', 9)]))
        for i in range(60 if q else 600):
            nA = rnd.choice((0, 1, 2, 3, 4, 5, 8)); nS = rnd.choice((1, 2, 3, 5))
            sz = lambda: rnd.choice(C + [rnd.randrange(3 * r), 3 * r, 0])
            sq = [('b', rnd.choice((0, 1, 2)))] * rnd.choice((0, 0, 1)) + [('s', sz()) for _ in range(nS)]
            out.append(('inc', fn, [sz() for _ in range(nA)], sq))
    out = list(dict.fromkeys(repr(x) for x in out)); out = [eval(x) for x in out]
    return out if full else out[::6]

def wrappers(k):
    p = spec.PAR[k]
    return [('prf', n) for n in (p.eta1 * 64, p.eta2 * 64, 1, 136, 137, 300)] + [('rkprf',), ('xof', [3]), ('xof', [1, 1]), ('xof', [3, 1, 2])]

def scripts13(tier):
    q = tier == 'quick'; rnd = random.Random(13); out = []
    for fn in ('shake128', 'shake256'):
        r = RATE[fn]; C = crit(r)
        hi = (2 if q else 4) * r + 3
        for n in range(0, hi): out.append(('shot4', fn, n, C[n % len(C)]))
        for i, n in enumerate(range(0, hi)): out.append(('shot4', fn, C[(i + i // len(C)) % len(C)], n))
        for i, n in enumerate(range(0, r + 1 if q else hi)): out.append(('once4', fn, n, [[1], [2, 1], [0, 3], [1, 1, 1], [4]][i % 5]))
        for n in (33, 34, 32, 64, 1184, 1568): out.append(('once4', fn, n, [3, 1, 2]))
        for i in range(40 if q else 300): out.append(('shot4', fn, rnd.randrange(5 * r), rnd.randrange(5 * r)))
        for n in ((65536 + r - 1,) if q else (65535, 65536, 65537, 65536 + r - 1)): out += [('shot4', fn, n, 10), ('shot4', fn, 10, n)]
    out = list(dict.fromkeys(repr(x) for x in out)); return [eval(x) for x in out]

def perm_job(impl):
    """the permutation itself: all 25 lanes symbolic, against FIPS 202"""
    from . import sweep
    t0 = time.time(); out = []
    k = 3
    res = H.Res('%s/K=%d/permutation' % (impl, k))
    M = H.machine(impl, k)
    four = impl == 'avx2'
    name = sponge.PERM4 if four else sponge.kem.PERM
    found = M.world.lookup('fips202' if not four else None, name)
    if found is None: res.bad('missing', 'permutation %s' % name)
    else:
        nl = 100 if four else 25
        o, v = M.sym_buf('st', nl, 2, align=32, ew=64)
        try:
            M.call(name, [o.base], found[0].name)
            got = [M.raw_load(M.objs[o.id], 8 * i, 8) for i in range(nl)]
            pairs = []
            for l in range(4 if four else 1):
                idx = list(range(l, 100, 4)) if four else list(range(25))
                w = spec.keccak_f([v[i] for i in idx]); pairs += [(got[i], x) for i, x in zip(idx, w)]
            res.outputs = len(pairs)
            ident = sum(a is b for a, b in pairs)
            if ident == len(pairs): st, env = smt.differ(pairs), None
            else: st, env = sweep.equal(pairs)
            res.info = dict(identical=ident)
            if st != 'unsat': res.bad('perm', 'permutation: %s' % st); res.env = env
        except (sponge.Violation, sponge.PathEnd, sponge.Unsupported) as e: res.bad('violation', str(e))
    H.finish(res, M, None, t0)
    d = runner.summarize(res)
    d['fail'] = [(('perm',), res.problems, [res.env] if getattr(res, 'env', None) else [])] if any(p['kind'] != 'missing' for p in res.problems) else []
    out.append(d)
    return out

def jobs(impl, k, scs, n, tag, stub=True, to=500):
    scs = list(scs); random.Random(5).shuffle(scs)
    big = [s for s in scs if any(isinstance(x, int) and x > 20000 for x in flat(s))]; sm = [s for s in scs if s not in big]
    js = [('%s-%d %s big %d' % (impl, k, tag, i), sponge.scripts_job, (impl, k, [b], stub), to) for i, b in enumerate(big)]
    for i in range(n):
        if sm[i::n]: js.append(('%s-%d %s %d' % (impl, k, tag, i), sponge.scripts_job, (impl, k, sm[i::n], stub), to))
    return js

def flat(x):
    if isinstance(x, (list, tuple)): return [z for y in x for z in flat(y)]
    return [x]

def same_source():
    a, b = (open(os.path.join(build.REPO, i, 'fips202.c')).read() for i in ('ref', 'avx2'))
    return a == b

def jobs12(tier):
    n = 16 if tier == 'quick' else 48; to = 500 if tier == 'quick' else 3000
    js = jobs('ref', 3, scripts12(tier, True), n, 'sponge', to=to)
    js += jobs('avx2', 3, scripts12(tier, not same_source()), 8, 'sponge', to=to)
    for impl in ('ref', 'avx2'):
        for k in (2, 3, 4): js.append(('%s-%d wrappers' % (impl, k), sponge.scripts_job, (impl, k, wrappers(k)), to))
        js.append(('%s-3 whole' % impl, sponge.scripts_job, (impl, 3, [('shot', 'shake128', 167, 32), ('shot', 'shake256', 135, 200), ('shot', 'sha3_256', 135), ('shot', 'sha3_512', 143)], False), to))
    js.append(('ref-3 perm', perm_job, ('ref',), to))
    return js

def jobs13(tier):
    to = 500 if tier == 'quick' else 3000
    js = [('avx2-3 perm4', perm_job, ('avx2',), to), ('avx2-3 whole', sponge.scripts_job, ('avx2', 3, [('shot4', 'shake128', 167, 170), ('shot4', 'shake256', 135, 20)], False), to)]
    return js + jobs('avx2', 3, scripts13(tier), 24 if tier == 'quick' else 48, 'x4', to=to)

# ------------------------------------------------------------------ native replay
def hl(fn, m, n):
    if fn == 'shake128': return hashlib.shake_128(m).digest(n)
    if fn == 'shake256': return hashlib.shake_256(m).digest(n)
    return (hashlib.sha3_256 if fn == 'sha3_256' else hashlib.sha3_512)(m).digest()

class Nat:
    def __init__(s, impl, k, **kw): s.l = native.lib(impl, k, **kw); s.impl = impl; s.k = k; s.p = sponge.pre(impl)
    def f(s, n):
        try: f = getattr(s.l, n)
        except AttributeError: return None
        f.restype = None; return f
    def run(s, sc, data, prior=0):
        """-> None if right, else description. data(name, n) -> bytes"""
        op = sc[0]; p = s.p; bufs = []; outs = []; Z = ctypes.c_size_t
        def inp(nm, n):
            b = native.Buf(n, 1, 1); d = data(nm, n); b.set(d); bufs.append((nm, b, d)); return b.ptr, d
        def out(n):
            b = native.Buf(n, 1, 3); b.v[:] = prior; outs.append(b); return b.ptr
        S = native.Buf(832, 32); S.v[:] = prior; st = S.ptr
        if op in ('inc', 'once'):
            fn = sc[1]; m = b''
            if op == 'inc':
                s.f(p + fn + '_init')(st)
                for i, n in enumerate(sc[2]):
                    a, d = inp('m%d' % i, n); s.f(p + fn + '_absorb')(st, a, Z(n)); m += d
                s.f(p + fn + '_finalize')(st)
            else: a, m = inp('m', sc[2]); s.f(p + fn + '_absorb_once')(st, a, Z(sc[2]))
            for t, n in sc[3]:
                if t == 's': s.f(p + fn + '_squeeze')(out(n), Z(n), st)
                else: s.f(p + fn + '_squeezeblocks')(out(n * RATE[fn]), Z(n), st)
            want = [(fn, m, range(len(outs)))]
        elif op == 'shot':
            fn = sc[1]; a, m = inp('m', sc[2])
            if fn in OUT: s.f(p + fn)(out(OUT[fn]), a, Z(sc[2]))
            else: s.f(p + fn)(out(sc[3]), Z(sc[3]), a, Z(sc[2]))
            want = [(fn, m, [0])]
        elif op == 'prf':
            a, m = inp('key', 32); nb = data('nonce', 1)
            s.f(H.ns(s.impl, s.k) + 'kyber_shake256_prf')(out(sc[1]), Z(sc[1]), a, ctypes.c_ubyte(nb[0])); want = [('shake256', m + nb, [0])]
        elif op == 'rkprf':
            a, m = inp('key', 32); c, d = inp('ct', spec.PAR[s.k].ctb)
            s.f(H.ns(s.impl, s.k) + 'kyber_shake256_rkprf')(out(32), a, c); want = [('shake256', m + d, [0])]
        elif op == 'xof':
            a, m = inp('seed', 32); x = data('x', 1); y = data('y', 1)
            s.f(H.ns(s.impl, s.k) + 'kyber_shake128_absorb')(st, a, ctypes.c_ubyte(x[0]), ctypes.c_ubyte(y[0]))
            for n in sc[1]: s.f(p + 'shake128_squeezeblocks')(out(168 * n), Z(n), st)
            want = [('shake128', m + x + y, range(len(outs)))]
        elif op == 'once4':
            fn, il = sc[1], sc[2]; A = [inp('m%d' % i, il) for i in range(4)]
            s.f(sponge.PRE4 + fn + 'x4_absorb_once')(st, *([a for a, _ in A] + [Z(il)]))
            for n in sc[3]: s.f(sponge.PRE4 + fn + 'x4_squeezeblocks')(*([out(n * RATE[fn]) for l in range(4)] + [Z(n), st]))
            want = [(fn, A[l][1], range(l, len(outs), 4)) for l in range(4)]
        elif op == 'shot4':
            fn, il, ol = sc[1:]; A = [inp('m%d' % i, il) for i in range(4)]; O = [out(ol) for l in range(4)]
            s.f(sponge.PRE4 + fn + 'x4')(*(O + [Z(ol)] + [a for a, _ in A] + [Z(il)]))
            want = [(fn, A[l][1], [l]) for l in range(4)]
        for fn, m, idx in want:
            g = b''.join(outs[i].get() for i in idx); w = hl(fn, m, len(g))
            if g != w:
                i = next(i for i in range(len(g)) if g[i] != w[i])
                return dict(kind='wrong output', function=fn, first_difference=i, got=g[i:i + 16].hex(), expected=w[i:i + 16].hex(), message=m[:64].hex(), message_length=len(m))
        for nm, b, d in bufs:
            if b.get() != d: return dict(kind='input modified', buffer=nm)
        for b in outs + [b for _, b, _ in bufs] + [S]:
            if not b.intact(): return dict(kind='write outside the buffer')
        return None

def replay(impl, k, fails, budget):
    """fails: [(script, problems, envs)]"""
    extra = scripts12('quick', False)[::5] if not any('4' in f[0][0] for f in fails) else scripts13('quick')[::9]
    extra = [x for x in extra if max([y for y in flat(x) if isinstance(y, int)] + [0]) < 20000]
    def go():
        import random as R
        N = Nat(impl, k); rnd = R.Random(1); end = time.time() + budget
        base = [('shot', 'sha3_256', 10), ('shot', 'shake128', 3, 10)]
        todo = [(sc, e) for sc, p, envs in fails if sc[0] != 'perm' for e in [{}] + list(envs)[:20]]
        todo += [(sc, {}) for sc in extra]
        n = 0
        while time.time() < end and todo:
            for sc, env in todo:
                for style in range(4):
                    def data(nm, ln):
                        b = bytearray(rnd.randbytes(ln) if style in (0, 3) else bytes([(0, 0, 255, 0)[style]]) * ln)
                        for i in range(ln):
                            x = env.get('%s[%d]' % (nm, i)) if nm not in ('nonce', 'x', 'y') else env.get(nm)
                            if x is not None: b[i] = x
                        return bytes(b)
                    try: r = N.run(sc, data, (0, 255, 0xa5, 1)[style])
                    except TypeError: continue
                    if r: return dict(r, impl=impl, script=sponge.sname(sc), env=str(env)[:300])
            n += 1
            if n >= 40: break
        return None
    st, v = native.isolated(go, budget + 30)
    if st == 'crash': return dict(kind='crash', impl=impl, signal=v, scripts=str([sponge.sname(f[0]) for f in fails])[:300])
    return v if st == 'ok' else None

def run_with_fails(o, outs): pass

def confirm(o, budget):
    todo = {}
    for name, f in getattr(o, 'fails', []):
        impl, k = name.split(' ')[0].split('-'); todo.setdefault((impl, int(k)), []).extend(f)
    for p in o.problems:
        try: impl, k = str(p.get('job')).split(' ')[0].split('-')
        except ValueError: continue
        todo.setdefault((impl, int(k)), [])
    js = [('replay %s-%d' % v, replay, v + (f, min(budget, 60)), budget + 100) for v, f in todo.items()]
    return [v for st, v in runner.run_jobs(js, 8, budget + 100).values() if st == 'ok' and v]

B12 = 'message bytes symbolic; call sequences with concrete lengths: one-shot for every message length 0..2 rates (+10; 4-5 rates in the thorough tier) and every output length 0..2 rates, absorb_once for every length 0..rate, two-call absorb splits and squeeze splits for every position in the block with the second length around the ends of the current and next block, random sequences of up to 8 absorbs and 6 squeezes, lengths just above 65536; block-squeezes only at block boundaries (documented precondition); the permutation is an uninterpreted function there and is itself decided over all 25 symbolic lanes and 24 rounds'
B13 = 'bytes of the four inputs symbolic; one-shot calls for every input length and every output length 0..2 rates (4 in the thorough tier), random pairs up to 5 rates, lengths just above 65536; absorb_once for every length 0..rate with up to 6 squeezed blocks; the permutation is an uninterpreted function there and is itself decided per lane over all 100 symbolic 64-bit words and 24 rounds'
CHECKS = {
    'C12': dict(jobs=jobs12, confirm=confirm, bounds=B12, rel=lambda p: p.get('kind') not in ('label', 'nostub', 'violation', 'ub') or p.get('job', '').endswith('perm')),
    'C13': dict(jobs=jobs13, confirm=confirm, bounds=B13, rel=lambda p: p.get('kind') not in ('label', 'nostub', 'violation', 'ub') or p.get('job', '').endswith('perm4')),
}
