"""C15 (secret independence), C16 (memory safety and defined behaviour), C18 (no hidden inputs, no side effects).

The three properties are read off the same symbolic runs of all entry points:
C15: every branch condition, address, division operand and select condition that the executor could not reduce to a constant
     is an event; the solver decides whether two runs that agree on all public inputs can disagree on it.
C16: the executor's memory model (objects of exact size, alignment, initialisation) plus one solver obligation per operation
     that could overflow, shift out of range or divide by zero.
C18: provenance of every output bit (prior output contents, uninitialised memory, mutable globals with arbitrary contents) and the
     frame (inputs unchanged).
"""
import os, random, re, time, ctypes
from . import terms as tm, exec as ex, harness as H, kem, runner, smt, sponge, spongecheck as SC, gen, gencheck as GC, leaf, native, build, spec, api
from .terms import T
from .exec import SECRET, PUBLIC, UNINIT, STATE, PRIOR
from .runner import log
ALL = [(i, k) for k in (4, 3, 2) for i in ('ref', 'avx2')]
KOPS = ['keypair_derand', 'enc_derand', 'dec', 'keypair', 'enc']

# ------------------------------------------------------------------ C15: two-run queries
def lab(t): return t.lab if type(t) is T else 0

def ct_decide(res, limit=12):
    """problems for decisions that can differ between two runs with the same public inputs"""
    seen = {}; n = 0
    for kind, t, where, pc in res.events:
        L = lab(t)
        if not L & SECRET: continue
        k = (kind, where)
        seen[k] = seen.get(k, 0) + 1
        if seen[k] > 2 or len(seen) > limit: continue
        roots = [x for x in [t] + list(pc) if type(x) is T]
        for lim in (400, 3000, None):
            # first over a neighbourhood of the decision (secret values further away arbitrary), then exactly
            big, rs = smt.cut(roots, lim) if lim else (False, roots)
            if lim == 3000 and big: continue
            if lim is None and smt.cut(roots, 20000)[0]: continue
            m = {s: tm.sym("%s'" % s.a[0], s.w, s.lab, nz=s.nz, rng=tm.rng(s), srng=tm.srng(s)) for s in tm.syms(rs) if s.lab & SECRET}
            memo = {}; q = dict(zip(roots, rs))
            g = lambda x: q[x] if type(x) is T else x
            f = lambda x: tm.subst(g(x), m, memo) if type(x) is T else x
            conds = [tm.xor(1, tm.eq(t.w, g(t), f(t)), 1)] + [g(x) for x in pc] + [f(x) for x in pc]
            r, env = smt.bv_check(conds, 10, 'ct'); n += 1
            if big and env: env = {s: v for s, v in env.items() if not str(s.a[0]).startswith('cut!')}
            if r == 'unsat' or not big: break
        if r == 'unsat': continue
        res.bad('ct', '%s in %s depends on secret data (%s)' % (dict(branch='a branch decision', addr='a memory address', div='an operand of a division', select='a conditional selection')[kind], where, r),
                where=where, ev=kind, env={str(s.a[0]): v for s, v in (env or {}).items()} if r == 'sat' else None)
    if len(seen) > limit: res.bad('ct', '%d further sites' % (len(seen) - limit), where=list(seen)[-1][1], ev='more', env=None)
    res.info = dict(res.info or {}, two_run_queries=n, input_dependent_decisions=len(res.events))

# ------------------------------------------------------------------ the runs
def icpa(impl, k, op):
    r = H.run_indcpa(impl, k, op, 'run')
    if hasattr(r, 'outs') and hasattr(r, 'M'):
        # frame and provenance
        nm = dict(keypair=['pk', 'sk'], enc=['c'], dec=['m'])[op]
        kem.outlabels(r, {n: v for n, v in zip(nm, r.outs)})
        for o in list(r.M.objs.values()):
            if o.name in r.ins and o.kind != 'stack' and o.name not in nm:
                v = r.ins[o.name]
                if len(v) == o.size:
                    g = H.read(r.M, o, 0, o.size)
                    for i, (a, b) in enumerate(zip(g, v)):
                        if a is not b and not (type(a) is int and a == b): r.bad('frame', 'input %s[%d] modified' % (o.name, i)); break
        r.outputs = sum(len(v) for v in r.outs)
    return r

def with_state(f, *a):
    """run; if mutable globals were written, run again with those globals arbitrary: any call history"""
    ex.STATE_NAMES = frozenset()
    r = f(*a)
    w = frozenset(getattr(r.M, 'gwrites', ())) if hasattr(r, 'M') else frozenset()
    if w:
        r.info = dict(r.info or {}, mutable_globals_written=sorted(w))
        ex.STATE_NAMES = w
        try:
            r2 = f(*a)
            r2.problems += r.problems; r2.info = r.info
            for p in r2.problems: p.setdefault('state', sorted(w))
            r = r2
        finally: ex.STATE_NAMES = frozenset()
    return r

def scripts_one(impl, k, scs):
    tot = H.Res('%s/K=%d/%d call sequences' % (impl, k, len(scs))); t0 = time.time(); w = set()
    for sc in scs:
        r = with_state(sponge.run_script, impl, k, sc)
        tot.steps += r.steps; tot.instrs += r.instrs; tot.funcs |= r.funcs; tot.outputs += r.outputs; tot.obl += r.obl; tot.events += r.events
        for p in r.problems: p['script'] = sc; tot.problems.append(p)
        if len(tot.problems) > 6: break
    tot.nodes = tm.nnodes(); tot.wall = time.time() - t0
    return tot

def perm(impl):
    res = H.Res('%s/K=3/permutation' % impl); t0 = time.time(); M = H.machine(impl, 3); four = impl == 'avx2'
    name = sponge.PERM4 if four else kem.PERM
    f = M.world.lookup(None if four else 'fips202', name)
    if f is None: res.bad('missing', 'permutation'); H.finish(res, M, None, t0); return res
    n = 100 if four else 25
    o, v = M.sym_buf('st', n, SECRET, align=32, ew=64)
    try: M.call(name, [o.base], f[0].name); res.outputs = n
    except ex.Violation as e: res.bad('violation', str(e), vkind=e.kind)
    except (ex.PathEnd, ex.Unsupported) as e: res.bad('unsupported', str(e))
    H.finish(res, M, None, t0)
    return res

def leaves(impl, k):
    """functions that also run on secret data on their own, with every value of their documented input range"""
    return [n for n in leaf.contracts(impl, k) if 'getnoise' not in n and 'decompress' not in n]

def job(prop, impl, k, what, arg):
    if prop == 'C15': ex.CT_LIMIT = 40
    out = []
    if what == 'kem': rs = [with_state(kem.run_kem, impl, k, op) for op in arg]
    elif what == 'icpa': rs = [with_state(icpa, impl, k, arg)]
    elif what == 'sponge': rs = [scripts_one(impl, k, arg)]
    elif what == 'perm': rs = [perm(impl)]
    elif what == 'rej': rs = [gen.rej_leaf(k, t) for t in arg]
    elif what == 'leaf': rs = [leaf.run_leaf(impl, k, nm) for nm in arg]
    elif what == 'chain': rs = [with_state(gen.run_chain, impl, k, t, d) for t, d in arg]
    elif what == 'gen': rs = [gen.one_gen(impl, k, t, 'quick', g) for t, g in arg]
    for r in rs:
        if prop == 'C15': ct_decide(r)
        keep = dict(C15=('ct',), C16=('violation', 'ub', 'ub-unknown', 'label'), C18=('frame', 'label'))[prop]
        if prop != 'C16': r.obl = []
        infra = ('unsupported', 'pathend', 'missing')
        r.lemmas = {}
        d = runner.summarize(r)
        d['problems'] = [p for p in d['problems'] if p['kind'] in keep or p['kind'] in infra]
        if prop == 'C16': d['problems'] = [p for p in d['problems'] if p['kind'] != 'label' or 'uninitialised' in p['msg']]
        d['fail'] = [dict(p, impl=impl, k=k, what=what, sub=r.name) for p in d['problems'] if p['kind'] != 'missing'][:12]
        out.append(d)
    return out

def jobs(prop):
    def f(tier):
        to = 500 if tier == 'quick' else 2400; js = []
        for impl, k in ALL:
            for op in ('enc', 'keypair', 'dec'): js.append(('%s-%d icpa %s' % (impl, k, op), job, (prop, impl, k, 'icpa', op), to))
        for impl, k in ALL: js.append(('%s-%d kem' % (impl, k), job, (prop, impl, k, 'kem', KOPS), to))
        for impl, k in ALL: js.append(('%s-%d wrappers' % (impl, k), job, (prop, impl, k, 'sponge', SC.wrappers(k)), to))
        if prop == 'C15':
            for impl in ('ref', 'avx2'): js.append(('%s-3 perm' % impl, job, (prop, impl, 3, 'perm', None), to))
            for impl, k in ALL:
                l = leaves(impl, k)
                for i in range(2): js.append(('%s-%d leaf %d' % (impl, k, i), job, (prop, impl, k, 'leaf', l[i::2]), to))
        else:
            ds = (0, .3) if tier == 'quick' else (0, .1, .2, .3, .4, .5)
            for impl, k in ALL: js.append(('%s-%d chain' % (impl, k), job, (prop, impl, k, 'chain', [(t, d) for t in (0, 1) for d in ds]), to))
            step = 4 if tier == 'quick' else 1
            for impl, k in (('ref', 3), ('avx2', 3)):
                s = SC.scripts12(tier, True)[::step]; random.Random(5).shuffle(s)
                if impl == 'avx2' and SC.same_source(): s = s[::6]
                for i in range(8): js.append(('%s-%d sponge %d' % (impl, k, i), job, (prop, impl, k, 'sponge', s[i::8]), to))
            s = SC.scripts13(tier)[::2 if tier == 'quick' else 1]; random.Random(5).shuffle(s)
            for i in range(8): js.append(('avx2-3 x4 %d' % i, job, (prop, 'avx2', 3, 'sponge', s[i::8]), to))
            if prop == 'C16':
                for impl, k in ALL:
                    n = gen.ngroups(impl, k, 'quick'); gs = [(g & 1, g) for g in range(n)]
                    if tier == 'quick': gs = gs[::4]
                    if impl == 'avx2' and k == 3:
                        w = ['front(%d)' % r for r in range(32)] + ['win(%d,8,front(%d))' % (208 + 4 * r, r) for r in range(0, 32, 2)] + ['rand(%d,%s)' % (r, d) for r in range(8) for d in ('.1', '.19', '.3')]
                        if tier != 'quick': w += ['win(%d,8,front(%d))' % (s, r) for r in range(0, 96, 5) for s in range(160, 336, 8)]
                        for i in range(6): js.append(('avx2-%d rej %d' % (k, i), job, (prop, impl, k, 'rej', w[i::6]), to))
                    for i in range(0, len(gs), 3): js.append(('%s-%d gen %d' % (impl, k, i), job, (prop, impl, k, 'gen', gs[i:i + 3]), to))
        return js
    return f

# ------------------------------------------------------------------ confirmation
def fails_of(o):
    by = {}
    for name, fs in o.fails:
        for p in fs: by.setdefault((p['impl'], p['k']), []).append(p)
    for p in o.problems:
        m = re.match(r'(ref|avx2)-(\d) ', str(p.get('job')))
        if m: by.setdefault((m.group(1), int(m.group(2))), by.get((m.group(1), int(m.group(2))), []))
    return by

def assigns(k, p, prime=''):
    """byte-level inputs from a solver model"""
    e = p.get('env')
    if not e: return None
    P = spec.PAR[k]; out = {}
    for nm, alt, n in (('pk', 'pk', P.pkb), ('ct', 'ct', P.ctb), ('c', 'ct', P.ctb), ('sk', 'sk', P.skb), ('sk', 'isk', P.iskb), ('coins', 'd64', 64), ('coins', 'm', 32), ('coins', 'coins', 32), ('m', 'm', 32), ('d', 'd', 32)):
        v = {i: e.get('%s[%d]%s' % (nm, i, prime), e.get('%s[%d]p' % (nm, i), e.get('%s[%d]' % (nm, i)))) for i in range(n)}
        if any(x is not None for x in v.values()):
            if alt == 'm' and nm == 'coins' and 'm[0]' in e: continue
            out[alt] = {i: x & 255 for i, x in v.items() if x is not None}
    return out

def op_of(sub):
    m = re.match(r'(ref|avx2)/K=(\d)/(kem|indcpa)_(\w+)$', str(sub))
    if not m: return None
    return {'kem': {'keypair_derand': 'kp', 'keypair': 'kp', 'enc_derand': 'enc', 'enc': 'enc', 'dec': 'dec'}, 'indcpa': {'keypair': 'ikp', 'enc': 'ienc', 'dec': 'idec'}}[m.group(3)].get(m.group(4))

def patch(base, a):
    b = bytearray(base)
    for i, v in (a or {}).items():
        if i < len(b): b[i] = v
    return bytes(b)

# ---- C15: traces of an instrumented build
CB = r'''
#include <stdint.h>
#include <stddef.h>
#include <string.h>
uint64_t vf_h[200000], vf_n[200000]; static int off;
void vf_site(uint32_t s, uint64_t v) { if (off) return; vf_h[s] = (vf_h[s] ^ v ^ (v >> 29)) * 0x9E3779B97F4A7C15ull + 0x1234567; vf_n[s]++; }
void vf_off(void) { off++; } void vf_on(void) { off--; }
void vf_reset(void) { memset(vf_h, 0, sizeof vf_h); memset(vf_n, 0, sizeof vf_n); off = 0; }
int vf_memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) { vf_site(199999, i); return x[i] - y[i]; } vf_site(199999, n); return 0; }
'''

def instrument(txt, sites, modname):
    out = []; fn = None; isgen = False; n = 0
    for l in txt.split('\n'):
        s = l.strip()
        m = re.match(r'define .*?@"?([\w.$]+)"?\(', l)
        if m: fn = m.group(1); isgen = 'gen_matrix' in fn; out.append(l); entry = True; continue
        if fn is None: out.append(l); continue
        if s == '}': fn = None; out.append(l); continue
        def site(kind): sites.append((fn, kind)); return len(sites) - 1
        pre = []
        def logv(ty, v, kind):
            nonlocal n
            n += 1; z = '%%vfz%d' % n
            if ty == 'ptr':
                if not v.startswith('%'): return
                pre.append('  %s = ptrtoint ptr %s to i64' % (z, v))
            else:
                w = int(ty[1:])
                if w > 64: return
                pre.append('  %s = %s' % (z, 'zext %s %s to i64' % (ty, v) if w < 64 else 'add i64 %s, 0' % v))
            pre.append('  call void @vf_site(i32 %d, i64 %s)' % (site(kind), z))
        if entry and isgen and s and not s.endswith(':') and not s.startswith(';'): pre.append('  call void @vf_off()')
        if s and not s.endswith(':') and not s.startswith(';') : entry = False
        mm = re.match(r'br i1 (\S+),', s)
        if mm: logv('i1', mm.group(1), 'branch')
        mm = re.match(r'switch (i\d+) (\S+),', s)
        if mm: logv(mm.group(1), mm.group(2), 'branch')
        mm = re.match(r'%\S+ = select i1 (\S+),', s)
        if mm: logv('i1', mm.group(1), 'select')
        mm = re.match(r'%\S+ = load .*?, ptr (%[\w.]+)', s)
        if mm: logv('ptr', mm.group(1), 'addr')
        mm = re.match(r'store .*, ptr (%[\w.]+)(, align.*)?$', s)
        if mm: logv('ptr', mm.group(1), 'addr')
        mm = re.match(r'%\S+ = [us](div|rem)(?: exact)? (i\d+) ([^,]+), (\S+)', s)
        if mm:
            b = mm.group(4)
            if not (re.match(r'-?\d+$', b) and int(b) > 0 and int(b) & (int(b) - 1) == 0):
                logv(mm.group(2), mm.group(3), 'div'); logv(mm.group(2), b, 'div')
        mm = re.search(r'call .*@llvm\.mem(?:cpy|move|set)\S*\(.*?, i64 (%[\w.]+), i1', s)
        if mm: logv('i64', mm.group(1), 'addr')
        l = re.sub(r'@(memcmp|bcmp|strncmp)\(', '@vf_memcmp(', l)
        if isgen and s.startswith('ret '): pre.append('  call void @vf_on()')
        out += pre; out.append(l)
    t = '\n'.join(out)
    t = re.sub(r'(?m)^declare .*@vf_memcmp\(.*$', '', t)
    t += '\ndeclare void @vf_site(i32, i64)\ndeclare void @vf_off()\ndeclare void @vf_on()\n'
    if '@vf_memcmp(' in t: t += 'declare i32 @vf_memcmp(ptr, ptr, i64)\n'
    return t

def trace_lib(impl, k):
    d = build.scratch(); out = os.path.join(d, 'trace_%s_%d.so' % (impl, k)); sites = []; objs = []
    cs, ss = build.sources(impl); inc = os.path.join(build.REPO, impl)
    with open(out + '.cb.c', 'w') as f: f.write(CB + 'void randombytes(uint8_t *o, size_t n) { (void)o; (void)n; __builtin_trap(); }\n')
    for i, c in enumerate(cs):
        t = instrument(build.ir_text(c, inc, ('-DKYBER_K=%d' % k,), impl == 'avx2'), sites, os.path.basename(c))
        p = out + '.%d.ll' % i
        with open(p, 'w') as f: f.write(t)
        build.sh([build.CLANG, '-w', '-O1' if os.path.basename(c).startswith('Keccak') else '-O0', '-fPIC'] + (build.AVXF if impl == 'avx2' else []) + ['-c', p, '-o', p + '.o']); objs.append(p + '.o')
    build.sh([build.CLANG, '-shared', '-fPIC', '-w', '-O1', '-DKYBER_K=%d' % k, '-I' + inc] + (build.AVXF if impl == 'avx2' else []) + objs + ss + [out + '.cb.c', '-o', out, '-Wl,-Bsymbolic'])
    return out, sites

def ct_confirm(impl, k, fails, budget):
    def go():
        import numpy as np
        so, sites = trace_lib(impl, k)
        native._libs[(impl, k)] = ctypes.CDLL(so)
        K = native.Kem(impl, k); p = K.p
        h = (ctypes.c_uint64 * 200000).in_dll(K.l, 'vf_h'); c = (ctypes.c_uint64 * 200000).in_dll(K.l, 'vf_n')
        want = set(); asg = {}
        for f in fails:
            if f.get('kind') == 'ct': want |= {w for w in f['where'].split('>')[-1:]}
            op = op_of(f.get('sub'))
            if op and f.get('env'): asg.setdefault(op, []).append((assigns(k, f), assigns(k, f, "'")))
        idx = np.array([i for i, (fn, kd) in enumerate(sites) if not want or fn in want] + [199999])
        def trace(op, x):
            K.l.vf_reset(); api.run_op(K, op, x)
            H_ = np.frombuffer(h, dtype=np.uint64).copy(); N_ = np.frombuffer(c, dtype=np.uint64).copy()
            return H_[idx], N_[idx]
        pub = {'kp': (), 'enc': ('pk',), 'dec': ('ct',), 'ikp': (), 'ienc': ('pk',), 'idec': ('ct',)}
        def same_public(op, x, y):
            y = dict(y)
            for a in pub[op]: y[a] = x[a]
            if op == 'dec': y['sk'] = y['sk'][:p.pvb] + x['sk'][p.pvb:-32] + y['sk'][-32:]
            return y
        rnd = np.random.default_rng(5); end = time.time() + budget
        def snap():
            return np.frombuffer(h, dtype=np.uint64).copy(), np.frombuffer(c, dtype=np.uint64).copy()
        def ltrace(C, x):
            K.l.vf_reset(); C.native(x); return snap()
        for f in fails:
            m = f.get('sub') in leaf.contracts(impl, k)
            if f.get('what') != 'leaf' or not m or not f.get('env'): continue
            C = leaf.Concrete(leaf.contracts(impl, k)[f['sub']]); C.bind(K.l)
            nm = ['%s[%d]' % (a, i) if f['env'].get('%s[%d]' % (a, i)) is not None or len([1 for b in C.inputs if b[0] == a]) > 1 else a for a, i, _, _, _ in C.inputs]
            e = f['env']
            for t in range(4):
                base = [0 if t == 0 else int(rnd.integers(lo, hi + 1)) for _, _, _, lo, hi in C.inputs]
                def row(pr):
                    v = []
                    for (a, i, s_, lo, hi), n_, b in zip(C.inputs, nm, base):
                        z = e.get(n_ + pr, b)
                        if lo < 0 and z >> (s_.w - 1) & 1 and z >= 0: z -= 1 << s_.w
                        v.append(z)
                    return np.array([v], dtype=np.int64)
                x, y = row(''), row("'")
                x2 = ltrace(C, x); x1 = ltrace(C, x); y1 = ltrace(C, y)
                st = (x1[0] == x2[0]) & (x1[1] == x2[1])
                d = st & ((x1[0] != y1[0]) | (x1[1] != y1[1]))
                if d.any():
                    i = int(np.argmax(d)); fn, kd = sites[i] if i < len(sites) else ('memcmp', 'branch')
                    return dict(kind='trace depends on secrets', impl=impl, k=k, op=C.leaf.fn, function=fn, decision=kd, sites=int(d.sum()), family='solver, function called directly',
                                executions=(int(x1[1][i]), int(y1[1][i])), run1=' '.join(map(str, x[0])), run2=' '.join(map(str, y[0])),
                                how='IR of the current tree instrumented at every branch, load, store, division and selection, compiled; the function called on two inputs from its documented range')
        ops = list(asg) + [o for o in ('dec', 'enc', 'ikp', 'ienc', 'idec', 'kp') if o not in asg]
        bad = {}
        def compare(op, x, y, tag):
            x2 = trace(op, x); x1 = trace(op, x); y1 = trace(op, y)
            st = (x1[0] == x2[0]) & (x1[1] == x2[1])
            d = st & ((x1[0] != y1[0]) | (x1[1] != y1[1]))
            if d.any():
                i = int(idx[np.argmax(d)]); fn, kd = sites[i] if i < len(sites) else ('memcmp', 'branch')
                return dict(kind='trace depends on secrets', impl=impl, k=k, op=op, function=fn, decision=kd, sites=int(d.sum()), family=tag,
                            executions=(int(x1[1][np.argmax(d)]), int(y1[1][np.argmax(d)])), run1={a: v.hex() for a, v in x.items()}, run2={a: v.hex() for a, v in y.items()},
                            how='IR of the current tree instrumented at every branch, load, store, division and selection, compiled and run on two inputs with the same public part')
        gens = {o: api.gen(K, k, o, rnd, [], []) for o in ops}
        for o in ops:
            for a, b in asg.get(o, []):
                for t in range(6):
                    g = next(gens[o])[1]; g2 = next(gens[o])[1] if t & 1 else g
                    x = {nm: patch(v, a.get(nm)) for nm, v in g.items()}; y = same_public(o, x, {nm: patch(v, b.get(nm)) for nm, v in g2.items()})
                    v = compare(o, x, y, 'solver')
                    if v: return v
        while time.time() < end:
            for o in ops:
                x = next(gens[o])[1]; z = next(gens[o])[1]
                ys = [same_public(o, x, z)]
                if o == 'dec':
                    pk0, sk0 = K.keypair(rnd.bytes(64)); ct0 = K.enc(pk0, rnd.bytes(32))[0]; h0 = dict(ct=ct0, sk=sk0)
                    for y in (bytes(p.pvb), rnd.bytes(p.pvb), K.keypair(rnd.bytes(64))[1][:p.pvb]):
                        v = compare(o, h0, same_public(o, h0, dict(h0, sk=y + sk0[p.pvb:])), 'accepted against rejected')
                        if v: return v
                    c1 = bytearray(ct0); c1[int(rnd.integers(0, p.ctb))] ^= 1 << int(rnd.integers(0, 8)); h1 = dict(h0, ct=bytes(c1))
                    v = compare(o, h1, dict(h1, sk=sk0[:-32] + rnd.bytes(32)), 'rejection keys')
                    if v: return v
                    s = bytearray(x['sk']); s[int(rnd.integers(0, p.pvb))] ^= 1 << int(rnd.integers(0, 8)); ys.append(same_public(o, x, dict(x, sk=bytes(s))))
                    s = bytearray(x['sk']); s[-1 - int(rnd.integers(0, 32))] ^= 1 << int(rnd.integers(0, 8)); ys.append(same_public(o, x, dict(x, sk=bytes(s))))
                    ys.append(same_public(o, x, dict(x, sk=bytes(p.pvb) + x['sk'][p.pvb:])))
                if o in ('enc', 'ienc', 'ikp', 'kp'):
                    nm = dict(enc='m', ienc='m', ikp='d', kp='d64')[o]
                    for v in (bytes(len(x[nm])), b'\xff' * len(x[nm])): ys.append(same_public(o, x, dict(x, **{nm: v})))
                for y in ys:
                    v = compare(o, x, y, 'random')
                    if v: return v
    st, v = native.isolated(go, budget + 100)
    if st == 'ok' and v: return v
    if st != 'ok': log('trace', impl, k, st, str(v)[:300])

def confirm15(o, budget):
    by = fails_of(o)
    js = [('trace %s-%d' % v, ct_confirm, (v[0], v[1], f, budget / 2), budget + 150) for v, f in by.items() if any(p['kind'] == 'ct' for p in f)]
    return [v for st, v in runner.run_jobs(js, 8, budget + 150).values() if st == 'ok' and v]

# ---- C16
def asan_child(impl, k, fails, budget):
    """runs with libasan preloaded; prints the case before executing it"""
    import numpy as np, sys
    libc = ctypes.CDLL(None); libc.malloc.restype = ctypes.c_void_p; libc.malloc.argtypes = [ctypes.c_size_t]; libc.free.argtypes = [ctypes.c_void_p]
    libc.memalign.restype = ctypes.c_void_p; libc.memalign.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
    mode = os.environ['KYSYM_BUF']; OFF = [0]
    libc.mmap.restype = ctypes.c_void_p; libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_int] * 3 + [ctypes.c_long]; libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]; libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
    class XBuf:
        """buffer of exactly n bytes: on the heap under AddressSanitizer, or against an inaccessible page"""
        def __init__(s, n, align=32, off=0):
            s.n = n
            if mode == 'asan':
                s.off = OFF[0] if align == 32 and off == 0 and n not in (832,) else (0 if align == 32 else off)
                if s.off == 0: s.m = libc.memalign(64, max(n, 1)); s.p = s.m
                else: s.m = libc.malloc(n + s.off); s.p = s.m + s.off
            else:
                L = (n + 4095) // 4096 * 4096 + 8192; s.L = L
                s.m = libc.mmap(None, L, 3, 0x22, -1, 0)
                libc.mprotect(s.m, 4096, 0); libc.mprotect(s.m + L - 4096, 4096, 0)
                front = OFF[0] == 1
                s.p = s.m + 4096 if front else s.m + L - 4096 - n
                if not front and (n in (832,)): s.p = s.m + L - 4096 - (n + 31) // 32 * 32
            s.ptr = ctypes.c_void_p(s.p)
            s.v = np.frombuffer((ctypes.c_uint8 * n).from_address(s.p), dtype=np.uint8) if n else np.zeros(0, dtype=np.uint8)
        def canary(s): pass
        def intact(s): return True
        def set(s, b): s.v[:len(b)] = np.frombuffer(bytes(b), dtype=np.uint8)
        def get(s): return bytes(s.v.tobytes())
        def __del__(s):
            if mode == 'asan': libc.free(s.m)
            else: libc.munmap(s.m, s.L)
    native.Buf = XBuf
    kw = dict(cc='gcc', opt='-O1', extra_flags=('-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer')) if mode == 'asan' else {}
    rnd = np.random.default_rng(9); pr = random.Random(9); end = time.time() + budget
    N = SC.Nat(impl, k, **kw)
    def say(*a):
        sys.stdout.seek(0) if False else None
        os.ftruncate(1, 0) if os.environ.get('KYSYM_TRUNC') else None
        print(*a, flush=True)
    K = None; asg = {}; scr = []
    for f in fails:
        op = op_of(f.get('sub'))
        if op and f.get('env'): asg.setdefault(op, []).append(assigns(k, f))
        if f.get('script'): scr.append((f['script'], f.get('env') or {}))
    for sc, env in scr * 2 + [(s, {}) for s in SC.wrappers(k)] + [(s, {}) for s in (SC.scripts12('quick', False)[::9] + (SC.scripts13('quick')[::6] if impl == 'avx2' else [])) if max([y for y in SC.flat(s) if isinstance(y, int)] + [0]) < 20000]:
        def data(nm, n): return bytes(env.get('%s[%d]' % (nm, i), pr.randrange(256)) for i in range(n))
        for OFF[0] in (0, 1):
            print('CASE sponge', sponge.sname(sc), 'placement', OFF[0], flush=True)
            try: N.run(sc, data)
            except TypeError: pass
    rej = [m.group(1) for f in fails for m in [re.match(r'avx2/K=\d/rej_uniform_avx (.*)$', str(f.get('sub')))] if m]
    if rej:
        fn = getattr(native.lib(impl, k, **kw), gen.ns('avx2', k) + 'rej_uniform_avx')
        for t in (rej + ['front(%d)' % i for i in range(64)]) * 3:
            c = gen.pat(t); v = [(pr.randrange(3329) if x == 'a' else pr.randrange(3329, 4096) if x == 'r' else pr.randrange(4096)) for x in map(c, range(336))]
            b = b''.join(bytes((v[i] & 255, v[i] >> 8 | (v[i + 1] & 15) << 4, v[i + 1] >> 4)) for i in range(0, 336, 2))
            ri = XBuf(512); bi = XBuf(504); bi.set(b)
            print('CASE rej_uniform_avx', t, b.hex(), flush=True)
            fn(ri.ptr, bi.ptr)
    gens = {}; n = 0
    ops = list(asg) + [o for o in api.OPS if o not in asg]
    while time.time() < end:
        OFF[0] = (0, 1, 3)[n % 3]; n += 1
        K = native.Kem(impl, k, **kw)
        for o in ops:
            if o not in gens: gens[o] = api.gen(K, k, o, rnd, [], [])
            lst = []
            for a in asg.get(o, [])[:6]:
                if a: lst.append({nm: patch(v, a.get(nm)) for nm, v in next(gens[o])[1].items()})
            for _ in range(6): lst.append(next(gens[o])[1])
            for x in lst:
                print('CASE', o, {a: v.hex()[:6000] for a, v in x.items()}, 'placement', OFF[0], flush=True)
                api.run_op(K, o, x)
        if mode != 'asan' and n > 30: break

def mem_confirm(impl, k, fails, budget):
    import subprocess, json, sys
    res = []
    for mode in ('asan', 'guard'):
        env = dict(os.environ, KYSYM_BUF=mode, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=1', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=runner.VERIF)
        pf = os.path.join(build.scratch(), 'asan_%s_%d_%s.json' % (impl, k, mode))
        with open(pf, 'w') as f: json.dump([dict((a, b) for a, b in x.items() if a in ('sub', 'env', 'script', 'kind')) for x in fails], f, default=str)
        try:
            if mode == 'asan':
                build.native_lib(impl, k, cc='gcc', opt='-O1', extra_flags=('-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'))
                lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
                lib2 = subprocess.run(['gcc', '-print-file-name=libubsan.so'], capture_output=True, text=True).stdout.strip()
                env['LD_PRELOAD'] = lib + ':' + lib2
            else: build.native_lib(impl, k)
        except build.BuildError as e: log('sanitizer build', str(e)[-300:]); continue
        code = 'import json,sys; from kysym import safety as S; f=json.load(open(%r)); S.asan_child(%r,%d,[dict(x,script=S.tup(x["script"]) if x.get("script") else None) for x in f],%f)' % (pf, impl, k, budget / 2)
        try: r = subprocess.run([sys.executable, '-c', code], capture_output=True, env=env, timeout=budget + 60)
        except subprocess.TimeoutExpired: continue
        out = r.stdout.decode(errors='replace'); err = r.stderr.decode(errors='replace')
        case = [l for l in out.split('\n') if l.startswith('CASE')][-1:]
        if 'AddressSanitizer' in err or 'runtime error' in err:
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*)', err)
            fr = re.findall(r'#\d+ 0x\w+ in (\S+)', err)[:4]
            return dict(kind='sanitizer', impl=impl, k=k, report=m.group(1) if m else err[-300:], frames=fr, case=case[0] if case else '', how='current tree built with gcc -O1 -fsanitize=address,undefined, buffers of exact size')
        if r.returncode in (-11, -7, -4):
            return dict(kind='crash', impl=impl, k=k, signal=-r.returncode, mode=mode, case=case[0] if case else '', how='buffers placed against an inaccessible page' if mode == 'guard' else 'sanitizer build')
        if r.returncode: log('mem', mode, r.returncode, err[-300:])
    return hist_confirm(impl, k, fails, budget / 3, True)

def tup(x): return tuple(tup(y) if isinstance(y, list) and y and isinstance(y[0], str) else [tup(z) if isinstance(z, list) else z for z in y] if isinstance(y, list) else y for y in x)

# ---- C18 (and uninitialised reads of C16)
STK = '''#include <string.h>
__attribute__((noinline)) void vf_stack(int v) { volatile unsigned char b[400000]; memset((void *)b, v, sizeof b); __asm__ volatile("" :: "r"(b) : "memory"); }
'''
def hist_confirm(impl, k, fails, budget, stackonly=False):
    d = build.scratch(); so = os.path.join(d, 'vfstack.so')
    if not os.path.exists(so):
        with open(so + '.%d.c' % os.getpid(), 'w') as f: f.write(STK)
        build.sh(['gcc', '-shared', '-fPIC', '-O0', so + '.%d.c' % os.getpid(), '-o', so + '.tmp%d' % os.getpid()]); os.rename(so + '.tmp%d' % os.getpid(), so)
    def go():
        import numpy as np
        st = ctypes.CDLL(so)
        libs = [dict(), dict(cc='gcc', opt='-O0')]
        rnd = np.random.default_rng(8); pr = random.Random(8); end = time.time() + budget
        asg = {}
        for f in fails:
            op = op_of(f.get('sub'))
            a = assigns(k, f)
            if op and a: asg.setdefault(op, []).append(a)
        G = native.Kem(impl, k, tag='g') if False else native.Kem('avx2' if impl == 'ref' else 'ref', k)   # generator: never the library under test
        ops = list(asg) + [o for o in api.OPS if o not in asg]
        gens = {o: api.gen(G, k, o, rnd, [], []) for o in ops}
        def run1(K, op, x, prior, stack):
            for b in K.b.values(): b.v[:] = prior
            st.vf_stack(stack); return api.run_op(K, op, x)
        def fresh(kw, op, x, prior, stack):
            r = native.isolated(lambda: run1(native.Kem(impl, k, **kw), op, x, prior, stack), 60)
            return r
        def gm(K, seed, tr):
            st.vf_stack(0); return GC.native_gen(K, k, impl, seed, tr)
        n = 0
        def related(x):
            """an input sharing most bytes with x"""
            y = dict(x); nm = pr.choice(list(x)); b = bytearray(y[nm])
            w = pr.randrange(6)
            if w == 0: b[pr.randrange(len(b))] ^= 1 << pr.randrange(8)
            elif w == 1: h = pr.choice((1, 8, 16, 24, 31, 32, len(b) // 2)); b[h:] = rnd.bytes(max(0, len(b) - h))
            elif w == 2: h = pr.choice((1, 8, 16, 24, 31, len(b) // 2)); b[:len(b) - h] = rnd.bytes(max(0, len(b) - h))
            elif w == 3: b[-1 - pr.randrange(min(32, len(b)))] ^= 1 << pr.randrange(8)
            elif w == 4: i = pr.randrange(len(b)); b[i:i + 8] = rnd.bytes(len(b[i:i + 8]))
            y[nm] = bytes(b); return y
        while time.time() < end:
            kw = libs[n % 2]; n += 1
            for o in ops:
                x = next(gens[o])[1]
                if asg.get(o) and n & 1: a = asg[o][n // 2 % len(asg[o])]; x = {nm: patch(v, a.get(nm)) for nm, v in x.items()}
                A = fresh(kw, o, x, 0, 0); B = fresh(kw, o, x, 0, 0xff) ; C = fresh(kw, o, x, 0x5a, 0x5a) if not stackonly else B
                base = dict(impl=impl, k=k, op=o, inputs={a: v.hex() for a, v in x.items()}, build=str(kw))
                if A[0] == B[0] == C[0] == 'ok':
                    if A[1] != B[1]: return dict(base, kind='result depends on uninitialised stack contents')
                    if A[1] != C[1]: return dict(base, kind='result depends on prior contents of outputs or stack')
                if stackonly: continue
                # histories: related calls first, in one process
                def hist():
                    K = native.Kem(impl, k, **kw); out = []
                    seq = []
                    for _ in range(pr.choice((1, 1, 2, 4))):
                        q = o if pr.random() < .6 else pr.choice(ops)
                        y = related(x) if q == o else next(gens[q])[1]
                        if q != o:
                            for nm in y:
                                if nm in x and pr.random() < .5 and len(x[nm]) == len(y[nm]): y[nm] = related({nm: x[nm]})[nm]
                            if 'pk' in y and 'pk' in x and pr.random() < .5: y['pk'] = x['pk'][:-32] + y['pk'][-32:]
                        seq.append((q, y))
                    for q, y in seq: run1(K, q, y, 7, 7)
                    r = run1(K, o, x, 9, 9)
                    ins = [nm for nm, v in x.items() if nm in K.b and len(v) == K.b[nm].n and nm not in r and K.b['m' if nm == 'm' and o != 'idec' else 'm' if nm == 'd' else 'd' if nm == 'd64' else nm].get() != v and nm in ('pk', 'sk', 'ct', 'isk', 'coins')]
                    ok = all(b.intact() for b in K.b.values())
                    return r, [(q, {a: v.hex() for a, v in y.items()}) for q, y in seq], ins, ok
                pr.random(); s = pr.getstate()
                Hh = native.isolated(hist, 60)
                pr.seed(n * 1000 + ops.index(o))
                if Hh[0] == 'ok' and A[0] == 'ok':
                    r, seq, ins, ok = Hh[1]
                    if r != A[1]: return dict(base, kind='result depends on earlier calls', history=seq)
                    if ins: return dict(base, kind='input modified', which=ins)
                    if not ok: return dict(base, kind='write outside the declared outputs')
            if not stackonly:
                for tr in (0, 1):
                    s1 = bytearray(rnd.bytes(32)); s2 = bytes(patch(related(dict(s=bytes(s1)))['s'], {}))
                    def two():
                        K = native.Kem(impl, k, **kw)
                        if not hasattr(K.l, K.n + 'gen_matrix'): return None
                        gm(K, s2, pr.choice((0, 1))); return gm(K, bytes(s1), tr)
                    def onec():
                        K = native.Kem(impl, k, **kw)
                        if not hasattr(K.l, K.n + 'gen_matrix'): return None
                        return gm(K, bytes(s1), tr)
                    a = native.isolated(two, 30); b = native.isolated(onec, 30)
                    if a[0] == b[0] == 'ok' and a[1] is not None:
                        if a[1][0] != b[1][0]: return dict(kind='gen_matrix depends on earlier calls', impl=impl, k=k, seed=bytes(s1).hex(), earlier=s2.hex(), transposed=tr)
                        if b[1][1] != bytes(s1): return dict(kind='seed modified', impl=impl, k=k, seed=bytes(s1).hex())
                N = SC.Nat(impl, k, **kw)
                for sc in pr.sample(SC.scripts12('quick', False), 6) + SC.wrappers(k)[:3] + (pr.sample(SC.scripts13('quick'), 3) if impl == 'avx2' else []):
                    if max([y for y in SC.flat(sc) if isinstance(y, int)] + [0]) > 20000: continue
                    seed = pr.randrange(1 << 30)
                    for prior in (0, 255):
                        st.vf_stack(prior); q = random.Random(seed)
                        try: v = N.run(sc, lambda nm, ln: q.randbytes(ln), prior)
                        except TypeError: continue
                        if v and v['kind'] != 'wrong output': return dict(v, impl=impl, script=sponge.sname(sc))
                for f in fails:
                    if f.get('script'):
                        for prior in (0, 255, 0x5a):
                            st.vf_stack(prior); q = random.Random(prior)
                            try: v = N.run(f['script'], lambda nm, ln: q.randbytes(ln), prior)
                            except TypeError: continue
                            if v: return dict(v, impl=impl, script=sponge.sname(f['script']))
    st_, v = native.isolated(go, budget + 100)
    if st_ == 'ok': return v
    log('history', impl, k, st_, str(v)[:300])

def conf(fn):
    def go(o, budget):
        by = fails_of(o)
        js = [('%s %s-%d' % (fn.__name__, v[0], v[1]), fn, (v[0], v[1], f, budget), 2.5 * budget + 150) for v, f in by.items()]
        return [v for st, v in runner.run_jobs(js, 8, 2.5 * budget + 150).values() if st == 'ok' and v]
    return go

IB = 'all seeds, coins, messages, keys and ciphertexts are symbolic byte strings of the fixed sizes; K in {2,3,4}; ref and avx2; every loop is executed to its end; KEM level with the three public-key-encryption functions as uninterpreted functions, public-key level with an arbitrary matrix; '
B15 = IB + 'the pseudorandom-function wrappers, both Keccak permutations and every leaf function of the polynomial layer (on its own, any input of its documented range) with secret inputs. Every branch, address, division (other than by a power of two) and scalar selection in the clang -O0 IR and every memory operand of the assembly is covered. Matrix sampling handles public data only. What later compiler passes make of the source is outside'
B16 = IB + 'gen_matrix with the real SHAKE code (no and 30 % rejections) and with windows of free candidates; rej_uniform_avx on exact-size buffers with 0..31 leading rejections, windows of 8 free candidates and random classes; SHA-3/SHAKE and four-way SHAKE call sequences as in C12/C13 (every fourth / second of them in the quick tier). Every object has its exact declared size, caller byte buffers have alignment 1; each arithmetic operation that could overflow is a solver obligation'
B18 = IB + 'gen_matrix and SHA-3/SHAKE/four-way SHAKE call sequences as in C16; output buffers, stack memory and every mutable global that a run writes start with arbitrary symbolic contents (any call history)'
CHECKS = {
    'C15': dict(jobs=jobs('C15'), confirm=confirm15, bounds=B15),
    'C16': dict(jobs=jobs('C16'), confirm=conf(mem_confirm), bounds=B16),
    'C18': dict(jobs=jobs('C18'), confirm=conf(hist_confirm), bounds=B18),
}
