"""The registered checks."""
import json, os, re, sys, time, traceback
from . import runner, leaf as L, leafcheck as LC, build, spec, kemcheck as KC, gencheck as GC, spongecheck as SC, randcheck as RC, rngcheck as RG, safety as SF
from .runner import log, VERIF

ALL = [(i, k) for k in (2, 3, 4) for i in ('ref', 'avx2')]

def leaf_jobs(pat, split=1, variants=ALL):
    jobs = []
    for impl, k in variants:
        names = [n for n in L.contracts(impl, k) if re.search(pat, n.split('/')[-1])]
        for g in range(split):
            sub = names[g::split]
            if sub: jobs.append(('%s-%d leaf %d' % (impl, k, g), LC.leaf_group, (impl, k, sub), 500))
    return jobs

LEAFB = 'every input element is a symbolic variable over its whole documented range (16-bit coefficients or bytes); all 256*K coefficients at once; no unrolling bound is left open (loops are executed to their end); K in {2,3,4}; ref and avx2'

def c_leaf(pat, split=1):
    return dict(jobs=lambda tier: leaf_jobs(pat, split), confirm=LC.confirm_all, bounds=LEAFB)

CHECKS = {
    'C04': c_leaf(r'tobytes|frombytes'),
    'C05': c_leaf(r'compress'),
    'C06': c_leaf(r'msg|cmov_int16'),
    'C07': c_leaf(r'cbd|getnoise'),
    'C09': c_leaf(r'ntt|basemul', 2),
    'C10': c_leaf(r'reduce|tomont|poly_add|poly_sub|polyvec_add'),
}
CHECKS.update(KC.CHECKS)
CHECKS.update(GC.CHECKS)
CHECKS.update(SC.CHECKS)
CHECKS.update(RC.CHECKS)
CHECKS.update(RG.CHECKS)
CHECKS.update(SF.CHECKS)

def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop and f.get('status') == 'known']

def main(prop, tier, replay=None):
    t0 = time.time()
    c = CHECKS[prop]
    try: os.remove(os.path.join(runner.EVID, 'replay', prop + '.json'))
    except OSError: pass
    try:
        o = runner.explore(c['jobs'](tier), deadline=600 if tier == 'quick' else 3600, lemma_timeout=40 if tier == 'quick' else 120)
        o.tier = tier
        rel = c.get('rel')
        if rel: o.problems = [p for p in o.problems if rel(p)]
        viol = []
        if not o.clean():
            for p in o.problems[:12]: log('open:', p.get('job'), p.get('sub'), p.get('kind'), str(p.get('msg'))[:600])
            for l, info, ow in o.sat[:12]: log('refuted lemma', l[0], l[2:], 'at', info, 'in', ow[:3])
            for l, info, ow in o.unknown[:12]: log('undecided lemma', l[0], l[2:], info, 'in', ow[:3])
            left = 800 - (time.time() - t0)
            viol = c['confirm'](o, budget=max(20, min(200, left - 200)))
    except Exception as e:
        traceback.print_exc()
        o = runner.Outcome(); o.problems.append(dict(kind='internal', msg=str(e))); viol = []
    fresh = []; kn = []
    for v in viol:
        f = next((f for f in known(prop) if all(str(v.get(a)) == str(b) for a, b in f['match'].items())), None)
        if f: kn.append(f['what'])
        else: fresh.append(v)
    for w in sorted(set(kn)): print('KNOWN-FINDING: property=%s %s' % (prop, w))
    runner.write_evidence(prop, tier, o, t0, len(fresh), c['bounds'], known=kn)
    if fresh:
        p = runner.write_replay(prop, dict(violations=fresh[:8]))
        v = fresh[0]
        print('counterexample: ' + json.dumps({k: (str(x)[:300]) for k, x in v.items()}))
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if not o.clean():
        print('INCONCLUSIVE property=%s: %d open problems, %d refuted and %d undecided lemmas without a confirmed counterexample' % (prop, len(o.problems), len(o.sat), len(o.unknown)))
        return 0
    print('OK property=%s: %d outputs decided, %d lemmas proved, %d solver queries, %.1f s solver, %.1f s wall' % (prop, o.outputs, o.lemmas, o.stats.queries, o.stats.time, time.time() - t0))
    return 0

def selftest():
    """tool presence and oracle sanity (setup_cmd)"""
    import hashlib, z3
    from . import spec
    m = list(range(200))
    assert bytes(spec.shake128(m, 400)) == hashlib.shake_128(bytes(m)).digest(400)
    assert bytes(spec.sha3_512(m)) == hashlib.sha3_512(bytes(m)).digest()
    x = list(range(256)); assert spec.invntt(spec.ntt(x)) == x
    s = z3.Solver(); a = z3.Int('a'); s.add(a > 3, a < 4); assert str(s.check()) == 'unsat'
    for t in ('clang', 'opt', 'gcc', 'objdump', 'as'): 
        import shutil
        if not (shutil.which(t) or shutil.which(t + '-18')): print('missing tool', t); return 1
    print('selftest ok'); return 0
