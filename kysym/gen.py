"""Matrix generation over symbolic XOF streams (C08, C20).

Every 12-bit candidate of every stream is a symbolic variable.  A pattern says for each candidate whether it is accepted
(any value in [0,q)), rejected (any value in [q,4095]) or free (any value at all: both outcomes are explored symbolically).
"""
import time, random
from . import terms as tm, spec, smt, harness as H, kem
from .terms import T, MASK
from .forms import Forms
from .exec import Violation, Unsupported, PathEnd, SECRET, PUBLIC
from .harness import ns, read_ptr, write_ptr
Q = 3329

class Stream:
    """lazy stream of 12-bit candidates"""
    def __init__(s, name, pat): s.name = name; s.pat = pat; s.f = []
    def field(s, n):
        while len(s.f) <= n:
            i = len(s.f); c = s.pat(i)
            nm = '%s[%d]' % (s.name, i)
            if c == 'a': t = tm.sym(nm + 'a', 12, PUBLIC, rng=(0, Q - 1))
            elif c == 'r': t = tm.sym(nm + 'r', 12, PUBLIC, rng=(Q, 4095))
            else: t = tm.sym(nm, 12, PUBLIC)
            s.f.append(t)
        return s.f[n]
    def byte(s, n):
        i, r = divmod(n, 3)
        if r == 0: return tm.ext(s.field(2 * i), 0, 8)
        if r == 1: return tm.cat(((tm.ext(s.field(2 * i), 8, 4), 4), (tm.ext(s.field(2 * i + 1), 0, 4), 4)))
        return tm.ext(s.field(2 * i + 1), 4, 8)
    def parse(s, n=256):
        """specified output: list of n terms"""
        out = [None] * n
        cond = {0: 1}             # number accepted so far -> condition
        i = 0
        while True:
            if all(c >= n for c in cond): break
            f = s.field(i); i += 1
            l, h = tm.rng(f)
            acc = 1 if h < Q else 0 if l >= Q else tm.ult(12, f, Q)
            if type(acc) is int and not acc: continue
            v = tm.zext(f, 12, 16)
            nc = {}
            for c, q in cond.items():
                if c >= n: nc[c] = tm.or_(1, nc[c], q) if c in nc else q; continue
                ca = tm.and_(1, q, acc)
                out[c] = v if out[c] is None else tm.ite(ca, v, out[c], 16)
                nc[c + 1] = tm.or_(1, nc[c + 1], ca) if c + 1 in nc else ca
                if type(acc) is T:
                    cr = tm.and_(1, q, tm.xor(1, acc, 1))
                    nc[c] = tm.or_(1, nc[c], cr) if c in nc else cr
            cond = {min(c, n): q for c, q in nc.items()} if max(nc) <= n else nc
            if i > 4000: raise Unsupported('stream too long')
        s.used = i
        return out

class Xof:
    """stand-in for SHAKE128: streams selected by the two index bytes of the absorbed message"""
    def __init__(s, pat): s.pat = pat; s.st = {}; s.streams = {}; s.bad = []; s.seed = None; s.msgs = []; s.blocks = {}; s.envs = []
    def stream(s, x, y):
        k = (x, y)
        if k not in s.streams: s.streams[k] = Stream('S%d.%d' % k, s.pat(x, y))
        return s.streams[k]
    def open(s, p, msg):
        s.msgs.append(msg)
        if len(msg) != 34 or not all(type(v) is int for v in msg[32:]):
            s.bad.append('XOF message of %d bytes or with non-constant indices' % len(msg)); key = ('bad', len(s.bad)); s.streams.setdefault(key, Stream('bad%d' % len(s.bad), lambda i: 'a'))
        else:
            ok = True
            for a, b in zip(msg, s.seed):
                if a is not b:
                    if type(a) is int: ok = False; break
                    r, env = smt.bv_check([tm.xor(1, tm.eq(8, a, b), 1)], 10, 'seed')
                    if r == 'sat': s.envs.append({str(t.a[0]): v for t, v in env.items()})
                    if r != 'unsat': ok = False
            if not ok: s.bad.append('XOF message does not start with the seed'); key = ('bad', len(s.bad)); s.streams.setdefault(key, Stream('bad%d' % len(s.bad), lambda i: 'a'))
            else: key = (msg[32], msg[33]); s.stream(*key)
        s.st[p] = [key, 0]
    def take(s, p, n):
        if p not in s.st or type(n) is not int: raise Unsupported('XOF use')
        key, pos = s.st[p]; st = s.streams[key]
        s.st[p][1] = pos + n
        s.blocks[key] = max(s.blocks.get(key, 0), pos + n)
        return [st.byte(pos + i) for i in range(n)]
    # hooks
    def hooks(s, world):
        h = {}
        def name(suf):
            return [n for n in list(world.gfun) + [n for m in world.modules.values() for n in m.decls] if n.endswith('_' + suf) and 'fips202' in n]
        def reg(suf, f):
            for n in name(suf): h[n] = f
        R = 168
        def absorb_once(M, a): s.open(a[0], read_ptr(M, a[1], a[2]))
        def squeezeblocks(M, a): write_ptr(M, a[0], s.take(a[2], R * s.cint(a[1])))
        def init(M, a): s.st[a[0]] = [[], None]
        def absorb(M, a): s.st[a[0]][0] = s.st[a[0]][0] + read_ptr(M, a[1], a[2])
        def finalize(M, a): s.open(a[0], s.st[a[0]][0])
        def squeeze(M, a): write_ptr(M, a[0], s.take(a[2], s.cint(a[1])))
        def oneshot(M, a):
            s.open(('x', a[2]), read_ptr(M, a[2], a[3])); write_ptr(M, a[0], s.take(('x', a[2]), s.cint(a[1])))
        def absorb4(M, a):
            ms = [read_ptr(M, a[1 + i], a[5]) for i in range(4)]
            for i in range(4): s.open((a[0], i), ms[i])
        def squeeze4(M, a):
            for i in range(4): write_ptr(M, a[i], s.take((a[5], i), R * s.cint(a[4])))
        def oneshot4(M, a):
            ms = [read_ptr(M, a[5 + i], a[9]) for i in range(4)]
            for i in range(4): s.open(('y', i), ms[i])
            for i in range(4): write_ptr(M, a[i], s.take(('y', i), s.cint(a[4])))
        reg('shake128_absorb_once', absorb_once); reg('shake128_squeezeblocks', squeezeblocks)
        reg('shake128_init', init); reg('shake128_absorb', absorb); reg('shake128_finalize', finalize); reg('shake128_squeeze', squeeze)
        reg('shake128', oneshot); reg('shake128x4_absorb_once', absorb4); reg('shake128x4_squeezeblocks', squeeze4); reg('shake128x4', oneshot4)
        return h
    def cint(s, v):
        if type(v) is not int: raise Unsupported('XOF length')
        return v

def run_gen(impl, k, transposed, pat, name):
    """pat(x, y) -> (n -> class)"""
    t0 = time.time(); res = H.Res(name); res.where = {}
    X = Xof(pat)
    w = H.world(impl, k)
    M = H.machine(impl, k, X.hooks(w))
    n = ns(impl, k)
    if M.world.lookup(None, n + 'gen_matrix') is None:
        res.bad('missing', 'gen_matrix not present'); H.finish(res, M, None, t0); return res
    F = Forms(); F.alias = {}; res.F = F
    a = M.out_buf('a', k * k * 512, 32 if impl == 'avx2' else 2)
    so, seed = M.sym_buf('seed', 32, PUBLIC)
    X.seed = seed; res.X = X
    try:
        M.call(n + 'gen_matrix', [a.base, so.base, transposed])
        o = M.objs[a.id]
        got = {}
        for i in range(k):
            for j in range(k):
                got[i, j] = [M.raw_load(o, (i * k + j) * 512 + 2 * H.mempos(impl, c), 2) for c in range(256)]
        for i, v in enumerate(H.read(M, so, 0, 32)):
            if v is not seed[i]: res.bad('frame', 'seed modified')
    except Violation as e:
        res.bad('violation', str(e), info=e.info, vkind=e.kind); H.finish(res, M, None, t0); return res
    except PathEnd as e:
        res.bad('pathend', str(e)); H.finish(res, M, None, t0); return res
    for b in X.bad: res.bad('xof', b)
    same = []
    res.got = got; res.want = {}
    for i in range(k):
        for j in range(k):
            st = X.stream(i, j) if transposed else X.stream(j, i)
            want = st.parse(); res.want[i, j] = want
            for c, (g, v) in enumerate(zip(got[i, j], want)):
                res.outputs += 1
                if g is v: same.append((g, v)); continue
                l = len(F.lemmas)
                sy = sorted(tm.syms([x for x in (g, v) if type(x) is T]), key=lambda t: t.id)
                if len(sy) > 400: res.bad('entry', 'entry (%d,%d) coefficient %d differs from the specification' % (i, j, c), entry=(i, j)); continue
                F.same(g, v, sy)
                lem = next(reversed(F.lemmas)); res.where.setdefault(lem, (i, j, c, sy))
    r = smt.differ(same)
    if r != 'unsat': res.bad('value', 'solver: ' + r)
    H.finish(res, M, F, t0)
    res.info = dict(pattern=name)
    res.envs = X.envs
    return res

# ------------------------------------------------------------------ patterns
def p_all(i): return 'a'
def p_front(r): return lambda i: 'r' if i < r else 'a'
def p_at(s, r, base=p_all): return lambda i: 'r' if s <= i < s + r else base(i)
def p_every(m, ph=0, upto=1 << 30): return lambda i: 'r' if i % m == ph and i < upto else 'a'
def p_win(s, w, base=p_all): return lambda i: 'f' if s <= i < s + w else base(i)
def p_rand(seed, dens):
    def f(i): return 'r' if random.Random('%s.%d' % (seed, i)).random() < dens else 'a'
    return f
def p_list(l, base=p_all): return lambda i: 'r' if i in l else base(i)
PF = dict(all=p_all, front=p_front, at=p_at, every=p_every, win=p_win, rand=p_rand)
def pat(txt): return eval(txt, dict(PF, __builtins__={}))

def pattern_list(impl, tier, k=None):
    """pattern texts: windows at every group of every block, thresholds of the sample counter, block boundaries, long rejection runs"""
    W = (12 if tier == 'quick' else 16) if impl == 'ref' else 8
    st = W if tier == 'quick' else 4
    out = []
    for s in range(0, 264, st): out.append('win(%d,%d,all)' % (s, W))                          # every position, no other rejection
    for r in (1, 7, 8, 9, 16, 24, 31, 32, 33, 48, 64, 79, 80, 81, 95, 112, 150, 192, 193, 250, 304, 305, 416, 417) if tier == 'quick' else range(1, 430):
        out.append('win(%d,%d,front(%d))' % (r + 252 - W // 2, W, r))                         # around completion
        if r < 336: out.append('at(%d,%d)' % (336 - r if r < 200 else 20, r))
    for b in (336, 448, 560, 672):                                                           # block boundaries
        r = b - 200
        out.append('win(%d,%d,front(%d))' % (b - W // 2, W, r)); out.append('win(%d,%d,at(8,%d))' % (b - W, W, r)); out.append('win(%d,%d,at(8,%d))' % (b, W, r))
        out.append('at(%d,8,front(%d))' % (b - 4, r)); out.append('at(%d,1,front(%d))' % (b - 1, r)); out.append('at(%d,1,front(%d))' % (b, r))
        out.append('front(%d)' % (b - 256)); out.append('front(%d)' % (b - 255)); out.append('front(%d)' % (b - 257))
    for m in (2, 3, 5, 8, 16, 32): out.append('win(%d,%d,every(%d,%d))' % (8 * m, W, m, m - 1)); out.append('every(%d,0)' % m)
    for i, d in enumerate((.05, .1, .19, .19, .25, .4, .6)): out.append('rand(%d,%s)' % (i, d)); out.append('win(%d,%d,rand(%d,%s))' % (160 + 24 * i, W, i, d))
    if tier != 'quick':
        for s in range(0, 700, 4):
            for b in ('rand(%d,.19)' % s, 'rand(%d,.45)' % s, 'front(%d)' % max(0, s - 100)): out.append('win(%d,%d,%s)' % (s, W, b))
        for s in range(0, 264, 8): out.append('win(%d,%d,all)' % (s, W + 4))
    out = list(dict.fromkeys(out))
    if tier == 'quick' and k is not None:
        # windows whose lemmas are not shared between parameter sets are spread over them
        import zlib
        out = [p for p in out if not (p.startswith('win') and ('every' in p or 'rand' in p or 'at(' in p or (impl == 'ref' and 'all' not in p))) or zlib.crc32(p.encode()) % 3 == k - 2]
    return out

class PermFields:
    """Keccak permutation as an uninterpreted function whose output blocks are streams of 12-bit candidates"""
    def __init__(s, dens): s.memo = kem.Memo(); s.dens = dens; s.calls = 0; s.streams = []
    def perm(s, lanes):
        def make(n):
            st = Stream('P%d' % n, p_rand(n, s.dens) if s.dens else p_all); s.streams.append(st)
            b = [st.byte(i) for i in range(168)]
            return [tm.cat([(x, 8) for x in b[8 * i:8 * i + 8]]) for i in range(21)] + [tm.sym('P%d.cap%d' % (n, i), 64, PUBLIC) for i in range(4)]
        return list(s.memo.get('perm', [lanes], make))
    def one(s, M, a):
        s.calls += 1
        o, off = M.find(a[0], 200, True, 8)
        r = s.perm([M.raw_load(o, off + 8 * i, 8) for i in range(25)])
        for i in range(25): M.raw_store(o, off + 8 * i, 8, r[i])
    def four(s, M, a):
        s.calls += 1
        o, off = M.find(a[0], 800, True, 32)
        for l in range(4):
            r = s.perm([M.raw_load(o, off + 32 * i + 8 * l, 8) for i in range(25)])
            for i in range(25): M.raw_store(o, off + 32 * i + 8 * l, 8, r[i])

PERM4 = 'pqcrystals_kyber_fips202x4_avx2_KeccakP1600times4_PermuteAll_24rounds'

def run_chain(impl, k, transposed, dens):
    """gen_matrix together with the real SHAKE128 code over an uninterpreted permutation"""
    t0 = time.time(); res = H.Res('%s/K=%d/chain t=%d d=%s' % (impl, k, transposed, dens))
    P = PermFields(dens)
    M = H.machine(impl, k, {kem.PERM: P.one, PERM4: P.four})
    n = ns(impl, k)
    if M.world.lookup(None, n + 'gen_matrix') is None:
        res.bad('missing', 'gen_matrix not present'); H.finish(res, M, None, t0); return res
    F = Forms(); F.alias = {}
    a = M.out_buf('a', k * k * 512, 32 if impl == 'avx2' else 2)
    so, seed = M.sym_buf('seed', 32, PUBLIC)
    try:
        M.call(n + 'gen_matrix', [a.base, so.base, transposed])
        o = M.objs[a.id]
        got = {(i, j): [M.raw_load(o, (i * k + j) * 512 + 2 * H.mempos(impl, c), 2) for c in range(256)] for i in range(k) for j in range(k)}
        for i, v in enumerate(H.read(M, so, 0, 32)):
            if v is not seed[i]: res.bad('frame', 'seed modified'); break
    except Violation as e:
        res.bad('violation', str(e), info=e.info, vkind=e.kind); H.finish(res, M, None, t0); return res
    except PathEnd as e:
        res.bad('pathend', str(e)); H.finish(res, M, None, t0); return res
    if not P.calls: res.bad('xof', 'the Keccak permutation is never called'); H.finish(res, M, None, t0); return res
    pairs = []; firstbad = []; res.want = {}; res.envs = []
    for i in range(k):
        for j in range(k):
            msg = seed + ([i, j] if transposed else [j, i]); n_ = 504
            while True:
                b = spec.shake128(msg, n_, P.perm); want = []
                for q in range(n_ * 2 // 3):
                    f = spec.field(b, 12, q); l, h = tm.rng(f)
                    if h < Q: want.append(tm.zext(f, 12, 16))
                    elif l < Q: raise Unsupported('field')
                if len(want) >= 256: break
                n_ += 168
            bad = [c for c in range(256) if got[i, j][c] is not want[c] and smt.differ([(got[i, j][c], want[c])]) != 'unsat']
            res.outputs += 256
            res.want[i, j] = want
            if bad: firstbad.append((i, j, bad[0])); res.bad('entry', 'entry (%d,%d) is not the sample of SHAKE128(seed || indices): first at coefficient %d, %d in all' % (i, j, bad[0], len(bad)), entry=(i, j))
            pairs += [(g, w) for c, (g, w) in enumerate(zip(got[i, j], want)) if c not in bad]
    r = smt.differ(pairs)
    if r != 'unsat': res.bad('value', 'solver: ' + r)
    H.finish(res, M, F, t0)
    res.envs = P.memo.envs
    for i, j, c in firstbad:
        x, y = got[i, j][c], res.want[i, j][c]
        if type(x) is int and type(y) is int: continue
        r, env = smt.bv_check([tm.xor(1, tm.eq(16, x, y), 1)], 20, 'model')
        if r == 'sat': res.envs.append({str(t.a[0]): v for t, v in env.items()})
    return res

def chain_job(impl, k, transposed, dens):
    from . import runner
    return runner.summarize(run_chain(impl, k, transposed, dens))

def assign(impl, k, pats, g):
    """group g of patterns -> pattern per entry"""
    e = k * k; sub = pats[g * e:(g + 1) * e]
    # rotate so that every pattern position meets every lane over the groups
    sub = sub[g % len(sub):] + sub[:g % len(sub)] if sub else sub
    return [sub[i % len(sub)] for i in range(e)]

def sub_name(impl, k, transposed, g): return '%s/K=%d/gen t=%d g=%d' % (impl, k, transposed, g)

def one_gen(impl, k, transposed, tier, g):
    pats = pattern_list(impl, tier, k); asg = assign(impl, k, pats, g)
    fs = [pat(x) for x in asg]
    return run_gen(impl, k, transposed, (lambda x, y: fs[(x * k + y) % len(fs)]), sub_name(impl, k, transposed, g))

def ngroups(impl, k, tier): return -(-len(pattern_list(impl, tier, k)) // (k * k))

def gen_job(impl, k, tier, gs):
    from . import runner
    out = []
    for g in gs:
        tr = g & 1
        r = one_gen(impl, k, tr, tier, g)
        r.info = dict(transposed=tr, patterns=' '.join(assign(impl, k, pattern_list(impl, tier, k), g))[:300])
        out.append(runner.summarize(r))
    return out

def rej_leaf(k, wtxt):
    """rej_uniform_avx on an exact-size coefficient array and buffer"""
    t0 = time.time(); res = H.Res('avx2/K=%d/rej_uniform_avx %s' % (k, wtxt))
    M = H.machine('avx2', k); n = ns('avx2', k)
    if M.world.lookup(None, n + 'rej_uniform_avx') is None: res.bad('missing', 'rej_uniform_avx not present'); H.finish(res, M, None, t0); return res
    st = Stream('S', pat(wtxt)); F = Forms(); F.alias = {}
    r = M.out_buf('r', 512, 32); b = M.sym_buf('buf', 504, vals=[st.byte(i) for i in range(504)], align=32)[0]
    try: M.call(n + 'rej_uniform_avx', [r.base, b.base]); H.finish(res, M, F, t0)
    except Violation as e: res.bad('violation', str(e), vkind=e.kind); H.finish(res, M, None, t0)
    except PathEnd as e: res.bad('pathend', str(e)); H.finish(res, M, None, t0)
    return res

def rej_leaf_job(k, wins):
    from . import runner
    return [runner.summarize(rej_leaf(k, w)) for w in wins]
