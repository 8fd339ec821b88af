"""Checks over the KEM and public-key-encryption harnesses: C01, C02, C03, C11, C14, C19."""
import re, time
import numpy as np
from . import runner, kem, harness as H, api, smt, spec, terms as tm, native, lemma, build
from .terms import T, MASK
from .runner import log
Q = 3329
ALL = [(i, k) for k in (4, 3, 2) for i in ('ref', 'avx2')]

def icpa_job(impl, k, op, mode='forms', ct=False):
    r = H.run_indcpa(impl, k, op, mode)
    return runner.summarize(r, ct)

def noise_job():
    """decryption returns the message under the noise bound: solver lemma over one coefficient, all values"""
    res = H.Res('noise/lemma'); t0 = time.time()
    # canonical residue w of (message coefficient + noise), noise in [-831, 831]
    for bit in (0, 1):
        e = tm.sym('noise', 16, 0, srng=(-831, 831))
        x = tm.add(16, e, 1665 * bit)
        canon = spec.t_canon(x, 16, -831, 1665 + 831)
        got = spec.t_compress(canon, 1)
        r, env = smt.bv_check([tm.eq(1, got, 1 - bit)], 60, 'noise')
        res.outputs += 1
        if r != 'unsat': res.bad('noise', 'message bit %d not recovered: %s %s' % (bit, r, env))
    H.finish(res, H.machine('ref', 2), None, t0)
    return runner.summarize(res)

def kem_jobs(ops, variants=ALL):
    return [('%s-%d kem %s' % (i, k, '+'.join(ops)), kem.job, (i, k, ops), 400) for i, k in variants]

def icpa_jobs(ops, variants=ALL):
    return [('%s-%d indcpa_%s' % (i, k, op), icpa_job, (i, k, op), 500) for op in ops for i, k in variants]

# ------------------------------------------------------------------ explaining problems
def parse(sub):
    m = re.match(r'(ref|avx2)/K=(\d)/(kem|indcpa)_(\w+)$', str(sub))
    return (m.group(1), int(m.group(2)), m.group(3), m.group(4)) if m else None

def group(o):
    """open problems by harness: sub -> (problems, sat lemmas, unknown lemmas)"""
    g = {}
    def e(s): return g.setdefault(s, ([], {}, []))
    for p in o.problems:
        s = p.get('sub')
        if s is None:
            m = re.match(r'(ref|avx2)-(\d) (kem|indcpa_)\s?(.*)$', str(p.get('job')))
            if m:
                for op in m.group(4).split('+'): e('%s/K=%s/%s_%s' % (m.group(1), m.group(2), m.group(3).rstrip('_'), op))[0].append(p)
            continue
        e(s)[0].append(p)
    for l, info, own in o.sat:
        for job, sub in own: e(sub)[1][l] = info
    for l, info, own in o.unknown:
        for job, sub in own: e(sub)[2].append(l)
    return g

def _symval(env, name, i, dflt=0):
    return env.get('%s[%d]' % (name, i), dflt)

def kem_models(impl, k, op):
    """rerun the harness and ask the solver for inputs that break it"""
    r = kem.run_kem(impl, k, op); p = spec.PAR[k]
    out = []; models = []
    if not hasattr(r, 'outs'): return out, models
    todo = []
    for lem, (label, i) in r.where.items(): todo.append((label, i))
    for label, i in todo[:4]:
        got = r.outs[label][i]
        want = None
        if op == 'dec':
            I = r.ins; m = r.model; same = 1
            for a, b in zip(I['ct'], m['c2']): same = tm.and_(1, same, tm.eq(8, a, b))
            want = tm.ite(same, m['g'][i], m['rk'][i], 8)
            base = [tm.xor(1, tm.eq(8, got, want), 1)]
            vm = [0] * p.ctb
            for f in range(256):
                n = p.uvb * 8 + p.dv * f; vm[n >> 3] |= 1 << (n & 7)
            um = list(vm)
            for f in range(256 * k): n = p.du * f; um[n >> 3] |= 1 << (n & 7)
            for mask in (vm, um, None):
                cs = list(base)
                if mask is not None:
                    for a, b, q in zip(I['ct'], m['c2'], mask):
                        x = tm.and_(8, tm.xor(8, a, b), 0xff ^ q)
                        if type(x) is T: cs.append(tm.eq(8, x, 0))
                res, env = smt.bv_check(cs, 30, 'model')
                if res == 'sat':
                    e = {str(s.a[0]): v for s, v in env.items()}
                    d = bytes(e.get('ct[%d]' % j, 0) ^ e.get('%s' % m['c2'][j].a[0], 0) for j in range(p.ctb))
                    if sum(bin(x).count('1') for x in d[:p.uvb]) > 24: d = None
                    mm = [e.get(str(x.a[0])) for x in m['m']]
                    models.append(dict(delta=d, m=[0 if v is None else v for v in mm] if any(v is not None for v in mm) else None,
                                       sk={j: e.get('sk[%d]' % j, e.get('sk[%d]p' % j)) for j in range(p.skb) if ('sk[%d]' % j) in e or ('sk[%d]p' % j) in e}))
                    ct = bytes(e.get('ct[%d]' % j, 0) for j in range(p.ctb))
                    out.append(dict(ct=ct))
                    break
        else:
            for lem, (lb, ii) in r.where.items():
                if (lb, ii) == (label, i):
                    res, info = lemma.discharge(lem, 30)
                    if res == 'sat': out.append(info)
    for pr in runner.summarize(r)['problems']:
        if pr.get('env'): out.append(pr['env'])
    return out, models

def inputs_from_env(env, lens):
    a = {}
    for nm, n in lens.items():
        if any(('%s[%d]' % (nm, i)) in env for i in range(n)):
            a[nm] = bytes(env.get('%s[%d]' % (nm, i), 0) & 255 for i in range(n))
    return a

def kem_confirm(impl, k, op, mode, budget, spec_mode):
    base = {'keypair_derand': 'kp', 'keypair': 'kp', 'enc_derand': 'enc', 'enc': 'enc', 'dec': 'dec'}[op]
    asg = []; models = []
    try:
        r = kem.run_kem(impl, k, op); p = spec.PAR[k]
        lens = {'kp': dict(coins=64), 'enc': dict(pk=p.pkb, coins=32), 'dec': dict(ct=p.ctb, sk=p.skb)}[base]
        ren = {'coins': {'kp': 'd64', 'enc': 'm'}.get(base, 'coins')}
        envs = []
        if hasattr(r, 'outs'):
            n = 0
            for lem, (label, i) in r.where.items():
                res, info = lemma.discharge(lem, 20)
                if res == 'sat':
                    lv, roots = smt.unalpha(lem[1])
                    # leaf order of the key is the order of the sorted symbols of the harness
                    sy = r.where_syms.get((label,))
                    if sy: envs.append({str(s.a[0]): v for s, v in zip(sy, info)})
                    n += 1
                    if n >= 3: break
        for q in runner.summarize(r)['problems']:
            if q.get('env'): envs.append(q['env'])
        for e in envs:
            a = inputs_from_env(e, lens)
            asg.append({ren.get(x, x): v for x, v in a.items()})
        if op == 'dec': models = kem_models(impl, k, op)[1]
    except Exception as ex: log('model extraction failed', repr(ex))
    if op in ('keypair', 'enc'):
        v = api.search_random(impl, k, op, min(20, budget))
        if v: return v
    v = api.search(impl, k, base, mode, budget / 2, asg, models=models)
    if v: return v
    return stub_replay(impl, k, op, budget / 4)

def stub_replay(impl, k, op, budget): return None

# ---- indcpa ----
def icpa_targets(impl, k, op, sat):
    """solver values and overflow conditions mapped to ring targets that the inputs can be driven to"""
    t0 = time.time()
    r = H.run_indcpa(impl, k, op)
    F = getattr(r, 'F', None); tg = []; asg = []
    rnd = np.random.default_rng(3)
    vals = set()
    for l, info in sat.items():
        for v in (info or []):
            if type(v) is int and abs(v) < 1 << 34: vals.add(v % Q)
    for v in sorted(vals)[:40]:
        for d in (0, 1, -1): tg.append(np.full(256, (v + d) % Q))
    if F is None: return tg, asg
    from . import leafcheck as LC
    fam = {}
    for a in F.atoms:
        nm = getattr(a, 'name', None)
        if type(nm) is tuple and nm[0] in ('w', 'wh', 'v', 'vh'): fam.setdefault(nm[0], {})[a.id] = nm[1]
    def drive(eqs):
        for f, ids in fam.items():
            rows = []; rhs = []
            for form, val in eqs:
                if not all(x == 0 or x in ids for x in form): continue
                rows.append({ids[x]: c for x, c in form.items() if x}); rhs.append(val - form.get(0, 0))
            if not rows: continue
            for t in range(4):
                n = len(rows); x = None
                while x is None and n: x = LC.gf_solve(rows[:n], rhs[:n], 256, rnd); n = n if x is not None else n // 2
                if x is None: continue
                if f in ('wh', 'vh'): tg.append(('wh', x) if op == 'dec' else api.invntt(x))
                else: tg.append(x)
    for n in list(sorted(F.fails, key=lambda t: t.id))[:300:30]:
        try:
            for eqs in LC.overflow_targets(F, n): drive(eqs)
        except Exception as e: pass
    return tg, asg

def icpa_confirm(impl, k, op, mode, budget, sat=None):
    b = {'keypair': 'ikp', 'enc': 'ienc', 'dec': 'idec'}[op]
    tg = []; asg = []
    try: 
        st, v = native.isolated(lambda: icpa_targets(impl, k, op, sat or {}), 150)
        if st == 'ok': tg, asg = v
    except Exception as ex: log('targets failed', repr(ex))
    return api.search(impl, k, b, mode, budget, asg, targets=tg)

def confirm(modes):
    """modes: 'kem' -> mode, 'indcpa' -> mode, 'extra' -> list of (op, mode)"""
    def go(o, budget):
        g = group(o); jobs = []
        vars_ = set()
        for sub, (pr, sat, unk) in g.items():
            x = parse(sub)
            if not x: continue
            impl, k, lay, op = x; vars_.add((impl, k))
            if lay == 'kem': jobs.append((sub, kem_confirm, (impl, k, op, modes.get('kem', 'spec'), budget, None), 600))
            else: jobs.append((sub, icpa_confirm, (impl, k, op, modes.get('indcpa', 'spec'), budget, sat), 600))
        for impl, k in vars_:
            for op, mode in modes.get('extra', ()): jobs.append(('%s/%d/%s' % (impl, k, op), api.search, (impl, k, op, mode, budget / 2), 600))
        outs = runner.run_jobs(jobs[:40], 8, budget * 2 + 100)
        return [v for st, v in outs.values() if st == 'ok' and v]
    return go

VAL = lambda p: p.get('kind') not in ('frame', 'label', 'ct')
IB = 'all seeds, coins, messages, keys and ciphertexts are symbolic byte strings of the fixed sizes of each parameter set; K in {2,3,4}; ref and avx2; every loop is executed to its end'
UF = '; the Keccak permutation and the three public-key-encryption functions are uninterpreted functions of their input bytes in this harness (decided by C12, C03 and C11)'
GM = '; the public matrix is an arbitrary matrix over [0,q) (its generation is decided by C08 and C20)'
CHECKS = {
    'C01': dict(jobs=lambda tier: kem_jobs(['dec']), confirm=confirm(dict(kem='own')), bounds=IB + UF, rel=VAL),
    'C02': dict(jobs=lambda tier: kem_jobs(['keypair_derand', 'enc_derand', 'keypair', 'enc']), confirm=confirm(dict(kem='own')), bounds=IB + UF, rel=VAL),
    'C03': dict(jobs=lambda tier: icpa_jobs(['dec']) + [('noise', noise_job, (), 100)], confirm=confirm(dict(indcpa='spec')), bounds=IB, rel=VAL),
    'C11': dict(jobs=lambda tier: icpa_jobs(['enc', 'keypair']), confirm=confirm(dict(indcpa='spec')), bounds=IB + GM, rel=VAL),
    'C14': dict(jobs=lambda tier: icpa_jobs(['enc', 'keypair', 'dec']) + kem_jobs(['keypair_derand', 'enc_derand', 'dec']), confirm=confirm(dict(indcpa='diff', kem='diff')), bounds=IB + GM + UF, rel=VAL),
    'C19': dict(jobs=lambda tier: icpa_jobs(['enc', 'dec']) + kem_jobs(['enc_derand', 'dec']), confirm=confirm(dict(indcpa='spec', kem='spec')), bounds=IB + GM + UF + '; every 12-bit field of keys ranges over [0,4095]', rel=VAL),
}
