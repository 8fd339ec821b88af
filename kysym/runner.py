"""Job scheduling, lemma discharge, counterexample confirmation and reporting."""
import collections, json, os, sys, time, traceback, multiprocessing as mp, signal, resource
from . import smt, pool, build, terms as tm

T0 = time.time()
def log(*a): print('[%6.1f]' % (time.time() - T0), *a, flush=True)

class Watch(dict):
    """records where selected lemmas occur: lemma -> (roots, leaves)"""
    def __init__(s, keys): dict.__init__(s); s.keys_ = set(keys); s.hit = {}
    def setdefault(s, k, v=None):
        return dict.setdefault(s, k, v)

def summarize(res, ct=False, solve_obl=True):
    d = dict(name=res.name, problems=[dict(p) for p in res.problems], lemmas=list(res.lemmas), outputs=res.outputs, funcs=sorted(res.funcs),
             steps=res.steps, instrs=res.instrs, nodes=res.nodes, wall=round(res.wall, 2), info=dict(res.info), obl=[], events=len(res.events))
    seen = {}; nopen = collections.Counter(); t0 = time.time()
    for v, cond, where, pc in res.obl:
        key = (cond if type(cond) is int else cond.id, tuple(c if type(c) is int else c.id for c in pc))
        if key in seen: continue
        seen[key] = 1
        if solve_obl:
            cs = [cond] + list(pc); env = None; r = smt.near(cs) if time.time() - t0 < 150 and nopen[where] < 8 else None
            if r != 'unsat':
                big, rs = smt.cut(cs, 600)
                if nopen[where] > 7 or time.time() - t0 > 200: r = 'unknown'
                elif not big: r, env = smt.bv_check(cs, 20, 'ub')
                elif nopen[where] > 2: r = 'unknown'
                else:
                    r, env = smt.bv_check(rs, 20, 'ub')
                    if r != 'unsat':
                        r, env = ('unknown', None) if smt.cut(cs, 6000)[0] else smt.bv_check(cs, 20, 'ub')
                if r != 'unsat': nopen[where] += 1
            d['obl'].append((v.kind, where, r))
            if r == 'sat': d['problems'].append(dict(kind='ub', vkind=v.kind, msg='%s in %s' % (v.msg, where), env={str(s.a[0]): x for s, x in env.items()}))
            elif r != 'unsat' and nopen[where] <= 3: d['problems'].append(dict(kind='ub-unknown', vkind=v.kind, msg='%s in %s' % (v.msg, where)))
    d['ct'] = ct_summary(res) if ct else []
    d['stats'] = smt.STATS.dump()
    for p in d['problems']: p.pop('info', None)
    return d

def ct_summary(res):
    return [(k, w, t.lab if type(t) is tm.T else 0) for k, t, w, pc in res.events]

def _child(fn, args, conn):
    try:
        smt.STATS.reset()
        r = fn(*args)
        conn.send(('ok', r))
    except BaseException as e:
        try: conn.send(('exc', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
        except Exception: pass
    finally:
        conn.close(); os._exit(0)

def run_jobs(jobs, procs=8, deadline=600, verbose=True):
    """jobs: [(name, fn, args, timeout)] -> {name: ('ok', value)|('exc', text)|('timeout', None)}"""
    ctx = mp.get_context('fork')
    todo = list(jobs); run = {}; out = {}
    end = time.time() + deadline
    from multiprocessing.connection import wait
    while todo or run:
        while todo and len(run) < procs:
            name, fn, args, to = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(fn, args, b)); p.start(); b.close()
            run[a] = (name, p, time.time(), time.time() + to)
        now = time.time()
        left = min([x[3] for x in run.values()] + [end]) - now
        rdy = wait(list(run), max(0.05, left))
        for c in rdy:
            name, p, st, _ = run.pop(c)
            try: out[name] = c.recv()
            except EOFError: out[name] = ('exc', 'job died (out of memory?)')
            c.close(); p.join(5)
            if p.is_alive(): p.kill()
            if verbose: log('job', name, out[name][0], '%.1fs' % (time.time() - st))
        now = time.time()
        for c in list(run):
            name, p, st, lim = run[c]
            if now > lim or now > end:
                p.kill(); p.join(); run.pop(c); c.close(); out[name] = ('timeout', None)
                if verbose: log('job', name, 'timeout')
        if now > end:
            for name, fn, args, to in todo: out[name] = ('timeout', None)
            todo = []
    return out

class Outcome:
    """everything one check explored"""
    def __init__(s):
        s.jobs = {}; s.problems = []; s.sat = []; s.unknown = []; s.lemmas = 0; s.stats = smt.Stats(); s.funcs = set()
        s.steps = 0; s.instrs = 0; s.nodes = 0; s.outputs = 0; s.obl = 0; s.events = 0; s.samples = []; s.missing = []; s.lem_owner = {}
        s.cex = []; s.tv = 0; s.fails = []
    def clean(s): return not s.problems and not s.sat and not s.unknown

def explore(jobs, procs=8, deadline=600, lemma_timeout=40, verbose=True):
    o = Outcome()
    outs = run_jobs(jobs, procs, deadline, verbose)
    end = time.time() + max(60, deadline - 100)
    lem = {}
    for name, (st, v) in outs.items():
        o.jobs[name] = st
        if st != 'ok':
            o.problems.append(dict(job=name, kind=st, msg=str(v)[-1200:])); continue
        for d in (v if isinstance(v, list) else [v]):
            tv = d['info'].get('validated')
            if isinstance(tv, int): o.tv += tv
            elif tv: d['problems'].append(dict(kind='encoder', msg='validation of the encoding against the compiled code: %s' % tv))
            for p in d['problems']:
                p['job'] = name; p['sub'] = d['name']
                if p['kind'] == 'missing': o.missing.append(p)
                else: o.problems.append(p)
            for l in d['lemmas']:
                lem.setdefault(l, []).append((name, d['name']))
            o.funcs.update(d['funcs']); o.steps += d['steps']; o.instrs += d['instrs']; o.nodes += d['nodes']; o.outputs += d['outputs']
            o.obl += len(d['obl']); o.events += d['events']
            o.cex += d.get('cex', [])
            if d.get('fail'): o.fails.append((name, d['fail']))
            if len(o.samples) < 12: o.samples.append({'harness': d['name'], 'instructions': d['instrs'], 'outputs decided': d['outputs'], 'lemmas': len(d['lemmas']), **{str(k): str(x) for k, x in d['info'].items()}})
        vs = v if isinstance(v, list) else [v]
        o.stats.merge(vs[-1]['stats'])
    o.lemmas = len(lem)
    if lem:
        if verbose: log('discharging', len(lem), 'lemmas')
        rs, st = pool.discharge_all(list(lem), lemma_timeout, procs)
        for d in st: o.stats.merge(d)
        for l, s, info, secs in rs:
            if s == 'sat': o.sat.append((l, info, lem[l])); 
            elif s != 'unsat': o.unknown.append((l, info, lem[l]))
        if verbose: log('lemmas done: %d unsat, %d sat, %d unknown' % (len(lem) - len(o.sat) - len(o.unknown), len(o.sat), len(o.unknown)))
    return o

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

EVID = os.environ.get('KYSYM_EVIDENCE') or os.path.join(VERIF, 'evidence')

def write_evidence(prop, tier, o, t0, violations, bounds, extra=None, known=()):
    cov = dict(explanation='states = symbolic term nodes built, transitions = straight-line code segments executed symbolically, traces_validated_against_impl = concrete runs of the compiled code whose results were compared with the value of the symbolic encoding on the same inputs', functions_encoded=sorted(o.funcs), functions=len(o.funcs), bounds=bounds, harnesses={k: v for k, v in sorted(o.jobs.items())},
               instructions_executed_symbolically=o.instrs, outputs_decided=o.outputs, lemmas=o.lemmas,
               lemmas_proved=o.lemmas - len(o.sat) - len(o.unknown), lemmas_refuted=len(o.sat), lemmas_unknown=len(o.unknown),
               ub_obligations=o.obl, solver_queries=o.stats.queries, solver_seconds=round(o.stats.time, 2),
               solver_by_kind={k: [v[0], round(v[1], 2)] for k, v in o.stats.by.items()},
               states=o.nodes, transitions=o.steps, traces_validated_against_impl=o.tv, samples=o.samples or [{'note': 'none'}],
               missing=[p['msg'] for p in o.missing], inconclusive=[str(p)[:400] for p in o.problems[:10]] if not violations else [],
               known_findings=list(known))
    if extra: cov.update(extra)
    d = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 2), violations=violations)
    p = os.path.join(EVID, prop + '.json')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p + '.tmp', 'w') as f: json.dump(d, f, indent=1, default=str)
    os.replace(p + '.tmp', p)

def write_replay(prop, data):
    d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
    n = 0
    p = os.path.join(d, '%s.json' % prop)
    with open(p, 'w') as f: json.dump(dict(data, property=prop), f, indent=1, default=str)
    return p
