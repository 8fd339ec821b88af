"""SHA-3/SHAKE (C12) and four-way SHAKE (C13): the real sponge code over symbolic messages.

A script is a sequence of API calls with concrete lengths; every message byte is symbolic.
  ('inc', fn, [a1, a2, ...], [('s', n) | ('b', blocks), ...])   init, absorb each, finalize, squeezes
  ('once', fn, inlen, [squeezes])                               absorb_once, squeezes
  ('shot', fn, inlen, outlen)                                   shake128/shake256/sha3_256/sha3_512
  ('prf', outlen) ('rkprf',) ('xof', blocks...)                 the Kyber-specific wrappers (per K)
  ('once4', fn, inlen, [blocks...]) ('shot4', fn, inlen, outlen)
"""
import time, random
from . import terms as tm, spec, smt, harness as H, kem, build
from .terms import T
from .forms import Forms
from .exec import Machine, World, Violation, Unsupported, PathEnd, SECRET, PUBLIC, UNINIT, STATE, PRIOR
from .harness import ns, read
from .gen import PERM4

RATE = dict(shake128=168, shake256=136, sha3_256=136, sha3_512=72)
DOM = dict(shake128=0x1f, shake256=0x1f, sha3_256=6, sha3_512=6)
OUT = dict(sha3_256=32, sha3_512=64)

class Perm(kem.PermStub):
    def four(s, M, a):
        s.calls += 1
        o, off = M.find(a[0], 800, True, 32)
        for l in range(4):
            r = s.perm([M.raw_load(o, off + 32 * i + 8 * l, 8) for i in range(25)])
            for i in range(25): M.raw_store(o, off + 32 * i + 8 * l, 8, r[i])

def pre(impl): return 'pqcrystals_kyber_fips202_%s_' % impl
PRE4 = 'pqcrystals_kyber_fips202x4_avx2_'

_inlen = {}
def sname(sc):
    def f(x): return '+'.join(map(f, x)) if isinstance(x, list) else ''.join(map(str, x)) if isinstance(x, tuple) else str(x)
    return '/'.join(map(f, sc))

def run_script(impl, k, sc, stub=True, real_len=None):
    t0 = time.time(); res = H.Res('%s/K=%d/%s' % (impl, k, sname(sc)[:160])); res.where = {}; res.where_syms = {}
    P = Perm()
    M = H.machine(impl, k, {kem.PERM: P, PERM4: P.four} if stub else {})
    F = Forms(); F.alias = {}; res.F = F
    p = pre(impl); op = sc[0]; msgs = []; outs = []; ins = []
    def inp(nm, n):
        o, v = M.sym_buf(nm, n, SECRET); ins.append((nm, o, v)); return o.base, v
    def out(nm, n): o = M.out_buf(nm, n); outs.append((nm, o, n)); return o.base
    def call(f, *a):
        if M.world.lookup(None, f) is None: raise LookupError(f)
        return M.call(f, list(a))
    al = 32 if '4' in op else 8
    def state(n=208): return M.out_buf('state', n, al).base
    try:
        if op in ('inc', 'once'):
            fn = sc[1]; r = RATE[fn]; st = state()
            if op == 'inc':
                call(p + fn + '_init', st); m = []
                for i, n in enumerate(sc[2]):
                    a, v = inp('m%d' % i, n); call(p + fn + '_absorb', st, a, n); m += v
                call(p + fn + '_finalize', st)
            else:
                a, m = inp('m', sc[2]); call(p + fn + '_absorb_once', st, a, sc[2])
            for i, (t, n) in enumerate(sc[3]):
                if t == 's': call(p + fn + '_squeeze', out('o%d' % i, n), n, st)
                else: call(p + fn + '_squeezeblocks', out('o%d' % i, n * r), n, st)
            msgs = [(fn, m, [(len(outs), 0)])]
            want = [(fn, m, range(len(outs)))]
        elif op == 'shot':
            fn, il = sc[1], sc[2]; a, m = inp('m', il)
            if fn in OUT: call(p + fn, out('o', OUT[fn]), a, il)
            else: call(p + fn, out('o', sc[3]), sc[3], a, il)
            want = [(fn, m, [0])]
        elif op == 'prf':
            a, m = inp('key', 32); nb = tm.sym('nonce', 8, PUBLIC)
            call(ns(impl, k) + 'kyber_shake256_prf', out('o', sc[1]), sc[1], a, nb)
            want = [('shake256', m + [nb], [0])]
        elif op == 'rkprf':
            a, m = inp('key', 32); c, v = inp('ct', spec.PAR[k].ctb)
            call(ns(impl, k) + 'kyber_shake256_rkprf', out('o', 32), a, c)
            want = [('shake256', m + v, [0])]
        elif op == 'xof':
            a, m = inp('seed', 32); x = tm.sym('x', 8, PUBLIC); y = tm.sym('y', 8, PUBLIC); st = state()
            call(ns(impl, k) + 'kyber_shake128_absorb', st, a, x, y)
            for i, n in enumerate(sc[1]): call(p + 'shake128_squeezeblocks', out('o%d' % i, 168 * n), n, st)
            want = [('shake128', m + [x, y], range(len(outs)))]
        elif op == 'once4':
            fn, il = sc[1], sc[2]; st = state(800); A = [inp('m%d' % i, il) for i in range(4)]
            call(PRE4 + fn + 'x4_absorb_once', st, *[a for a, _ in A], il)
            for i, n in enumerate(sc[3]):
                call(PRE4 + fn + 'x4_squeezeblocks', *([out('o%d.%d' % (l, i), n * RATE[fn]) for l in range(4)] + [n, st]))
            want = [(fn, A[l][1], range(l, len(outs), 4)) for l in range(4)]
        elif op == 'shot4':
            fn, il, ol = sc[1:]; A = [inp('m%d' % i, il) for i in range(4)]; O = [out('o%d' % l, ol) for l in range(4)]
            call(PRE4 + fn + 'x4', *(O + [ol] + [a for a, _ in A] + [il]))
            want = [(fn, A[l][1], [l]) for l in range(4)]
        got = [read(M, o, 0, n) for nm, o, n in outs]
        kem.frame(res, M, {nm: (o, v) for nm, o, v in ins})
        kem.outlabels(res, {nm: g for (nm, o, n), g in zip(outs, got)})
    except LookupError as e:
        res.bad('missing', str(e)); H.finish(res, M, None, t0); return res
    except Violation as e:
        res.bad('violation', str(e), info=e.info, vkind=e.kind); H.finish(res, M, None, t0); return res
    except PathEnd as e:
        res.bad('pathend', str(e)); H.finish(res, M, None, t0); return res
    except Unsupported as e:
        res.bad('unsupported', str(e)); H.finish(res, M, None, t0); return res
    if stub and not P.calls: res.bad('nostub', 'permutation not found under its name')
    perm = P.perm if P.calls else spec.keccak_f
    pairs = []
    for fn, m, idx in want:
        g = [x for i in idx for x in got[i]]
        w = spec.sponge(m, RATE[fn], DOM[fn], len(g), perm)
        pairs += zip(g, w)
    bad = [(a, b) for a, b in pairs if a is not b and not (type(a) is int and a == b)]
    same = [(a, b) for a, b in pairs if type(a) is T and a is b]
    res.outputs += len(pairs); res.same = same; res.env = []
    if bad:
        if not stub or not P.calls:
            from . import sweep
            st, env = sweep.equal(bad)
            if st == 'unsat': bad = []
            else: res.env.append(env or {})
        else:
            nb = []
            for a, b in bad[:40]:
                r, env = smt.bv_check([tm.xor(1, tm.eq(8, a, b), 1)], 10, 'sponge')
                if r == 'unsat': continue
                nb.append(a); res.env.append({str(t.a[0]): v for t, v in (env or {}).items()})
            bad = nb if len(bad) <= 40 or nb else [bad[-1]]
    if bad: res.bad('value', 'output of %s differs from FIPS 202' % sname(sc), script=sc)
    res.envs = P.memo.envs
    H.finish(res, M, F, t0)
    return res

def scripts_job(impl, k, scs, stub=True):
    """all scripts in one process; one summary"""
    from . import runner
    tot = H.Res('%s/K=%d/%d call sequences' % (impl, k, len(scs))); same = []; t0 = time.time()
    fail = []; n0 = 0
    for sc in scs:
        r = run_script(impl, k, sc, stub)
        tot.steps += r.steps; tot.instrs += r.instrs; tot.funcs |= r.funcs; tot.outputs += r.outputs; tot.obl += r.obl; tot.events += r.events
        for p in r.problems: p['script'] = sc; tot.problems.append(p)
        if r.problems: fail.append((sc, [dict(p, info=None) for p in r.problems], getattr(r, 'envs', []) + getattr(r, 'env', [])))
        if len(fail) > 6: break
        same += getattr(r, 'same', [])
        if len(same) > 60000: tot.problems += decide(same); same = []
    tot.problems += decide(same)
    tot.nodes = tm.nnodes(); tot.wall = time.time() - t0
    tot.info = dict(first=sname(scs[0])[:80], last=sname(scs[-1])[:80])
    d = runner.summarize(tot); d['fail'] = fail[:6]
    return d

def decide(same):
    if not same: return []
    r = smt.differ(same)
    return [] if r == 'unsat' else [dict(kind='value', msg='solver: ' + r)]
