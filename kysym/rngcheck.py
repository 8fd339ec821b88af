"""C21: the known-answer generator's DRBG and seed expander.

AES-256 (OpenSSL's EVP interface) is an uninterpreted function of key and block; everything else in rng.c is executed.
Scripts: ('drbg', personalised, [n, ...], pinned V or None)   seeding, then successive requests
         ('update', with data)                                one state update on arbitrary key and counter
         ('exp', maxlen, arbitrary counter, [n, ...])         seed expander requests, among them ones beyond the budget
         ('expinit',) ('budget', maxlen)                      every budget; every over-long request
"""
import ctypes, os, random, time
from . import terms as tm, build, smt, harness as H, runner, kem, native
from .terms import T, MASK, add, cat, ext, zext, eq, xor, ite, ult, and_
from .exec import World, Machine, Violation, Unsupported, PathEnd
from .ir import Module
from .runner import log

HELP = r'''
#include <string.h>
#include "rng.h"
void vf_setctr(AES_XOF_struct *c, const unsigned char *v) { for(int i = 0; i < 4; i++) c->ctr[12+i] = v[i]; }
unsigned long vf_size(void) { return sizeof(AES_XOF_struct); }
'''
_w = None
def helper():
    p = os.path.join(build.scratch(), 'vf_rng_helper.c')
    if not os.path.exists(p):
        with open(p + '.%d' % os.getpid(), 'w') as f: f.write(HELP)
        os.rename(p + '.%d' % os.getpid(), p)
    return p
def dirs(): return os.path.join(build.REPO, 'ref', 'nistkat')
def world():
    global _w
    if _w is None:
        d = dirs()
        _w = World([Module(n, build.ir_text(p, d)) for n, p in (('rng', os.path.join(d, 'rng.c')), ('helper', helper()))])
    return _w

class Aes:
    def __init__(s, pin=()): s.memo = kem.Memo(); s.order = []; s.calls = 0; s.pin = pin
    def f(s, key, blk):
        def make(n):
            r = list(s.pin[n]) if n < len(s.pin) else [tm.sym('aes%d.%d' % (n, i), 8) for i in range(16)]
            s.order.append(r); return r
        return list(s.memo.get('aes', [key, blk], make))
    def install(s, M):
        M.hooks.update(EVP_CIPHER_CTX_new=lambda M, a: M.new_obj(32, 8, 'evp').base, EVP_CIPHER_CTX_free=lambda M, a: None, EVP_CIPHER_CTX_reset=lambda M, a: 1,
                       EVP_aes_256_ecb=lambda M, a: s.cipher(M), EVP_EncryptInit_ex=s.init, EVP_EncryptInit_ex2=s.init, EVP_CipherInit_ex=s.init, EVP_EncryptUpdate=s.update, EVP_CipherUpdate=s.update,
                       EVP_EncryptFinal_ex=s.final, EVP_CipherFinal_ex=s.final, EVP_CIPHER_CTX_set_padding=lambda M, a: 1, ERR_print_errors_fp=lambda M, a: None)
    def cipher(s, M):
        if not hasattr(s, 'c'): s.c = M.new_obj(1, 1, 'aes_256_ecb').base
        return s.c
    def init(s, M, a):
        if a[0] == 0: raise Unsupported('cipher context')
        if a[3] != 0:
            k = H.read_ptr(M, a[3], 32); H.write_ptr(M, a[0], k)
        return 1
    def update(s, M, a):
        n = a[4]
        if type(n) is not int or n % 16: raise Unsupported('cipher input length')
        key = H.read_ptr(M, a[0], 32)
        inp = H.read_ptr(M, a[3], n)
        for i in range(0, n, 16): s.calls += 1; H.write_ptr(M, add(64, a[1], i), s.f(key, inp[i:i + 16]))
        M.st(a[2], 4, n, 4); return 1
    def final(s, M, a): M.st(a[2], 4, 0, 4); return 1

def inc(v, j=None):
    """big-endian increment, byte by byte"""
    v = list(v)
    if j is None: j = len(v) - 1
    if j < 0: return v
    f = eq(8, v[j], 255); r = inc(v[:j] + [0] + v[j + 1:], j - 1); n = v[:j] + [add(8, v[j], 1)] + v[j + 1:]
    return [ite(f, x, y, 8) for x, y in zip(r, n)]

class Spec:
    def __init__(s, aes, key, V): s.aes = aes; s.key = key; s.V = V
    def update(s, data):
        t = []
        for i in range(3): s.V = inc(s.V); t += s.aes(s.key, s.V)
        if data is not None: t = [xor(8, a, b) for a, b in zip(t, data)]
        s.key = t[:32]; s.V = t[32:]
    def gen(s, n):
        out = []
        while len(out) < n: s.V = inc(s.V); out += s.aes(s.key, s.V)
        s.update(None)
        return out[:n]
class Exp:
    def __init__(s, aes, seed, div, maxlen, ctr=(0, 0, 0, 0)):
        s.aes = aes; s.key = seed; s.ctr = list(div) + list(maxlen.to_bytes(4, 'big')) + list(ctr); s.left = maxlen; s.buf = []
    def gen(s, n):
        """None: refuse (n beyond the budget)"""
        if n > s.left: return None
        while len(s.buf) < n: s.buf += s.aes(s.key, s.ctr); s.ctr = s.ctr[:12] + inc(s.ctr[12:])
        r = s.buf[:n]; s.buf = s.buf[n:]; s.left -= n
        return r

def run(sc):
    t0 = time.time(); res = H.Res('ref/nistkat/%s' % (sc,)); pairs = []; op = sc[0]; res.env = []
    M = Machine(world()); M.solver = smt.Ctx()
    pin = []
    if op == 'drbg' and sc[3] is not None: pin = [[tm.sym('k%d' % i, 8) for i in range(16)], [tm.sym('k%d' % (16 + i), 8) for i in range(16)], list(sc[3])]
    A = Aes(pin); A.install(M)
    def call(f, *a):
        if M.world.lookup('rng', f) is None: raise LookupError(f)
        return M.call(f, list(a), 'rng')
    def need(c, what):
        """c holds for every input"""
        r, env = smt.bv_check([tm.xor(1, c, 1)] + M.solver.assume, 30, 'rng'); res.outputs += 1
        if r != 'unsat': res.bad('value', what); res.env.append({str(t.a[0]): v for t, v in (env or {}).items()})
    try:
        if op == 'drbg':
            # pinned: the last 16 bytes of the entropy are zero and the third block of the first update is chosen, so the counter starts there
            e, ev = M.sym_buf('entropy', 48, vals=[tm.sym('entropy[%d]' % i, 8) for i in range(32)] + [0] * 16) if pin else M.sym_buf('entropy', 48)
            p = 0; mat = ev
            if sc[1]: po, pv = M.sym_buf('pers', 48); p = po.base; mat = [xor(8, a, b) for a, b in zip(ev, pv)]
            call('randombytes_init', e.base, p, 256)
            S = Spec(A.f, [0] * 32, [0] * 16); S.update(mat)
            for i, n in enumerate(sc[2]):
                o = M.out_buf('o%d' % i, n); r = call('randombytes', o.base, n)
                if r != 0: res.bad('ret', 'randombytes returns %s' % (r,))
                pairs += zip(H.read(M, o, 0, n), S.gen(n))
            res.want = len(pairs)
        elif op == 'update':
            k, kv = M.sym_buf('key', 32); v, vv = M.sym_buf('V', 16); d, dv = M.sym_buf('data', 48)
            call('AES256_CTR_DRBG_Update', d.base if sc[1] else 0, k.base, v.base)
            S = Spec(A.f, kv, vv); S.update(dv if sc[1] else None)
            pairs += zip(H.read(M, k, 0, 32) + H.read(M, v, 0, 16), S.key + S.V)
            pairs += zip(H.read(M, d, 0, 48), dv)
        else:
            sz = M.call('vf_size', [], 'helper'); c = M.out_buf('ctx', sz, 8)
            seed, sv = M.sym_buf('seed', 32); div, dv = M.sym_buf('div', 8)
            if op == 'expinit':
                n = tm.sym('maxlen', 64); big = xor(1, ult(64, n, 1 << 32), 1)
                r = call('seedexpander_init', c.base, seed.base, div.base, n)
                need(xor(1, xor(1, big, xor(1, eq(32, r, 0), 1)), 1), 'seedexpander_init accepts exactly the budgets below 2^32')
            elif op == 'budget':
                call('seedexpander_init', c.base, seed.base, div.base, sc[1])
                for n in sc[2]:
                    o = M.out_buf('p', n); call('seedexpander', c.base, o.base, n)
                n = tm.sym('xlen', 64); left = sc[1] - sum(sc[2]); M.solver.assume.append(ult(64, left, n))
                o = M.new_obj(0, 1, 'none')
                r = call('seedexpander', c.base, o.base, n)
                need(xor(1, eq(32, r, 0), 1), 'a request beyond the budget is refused')
            else:
                r = call('seedexpander_init', c.base, seed.base, div.base, sc[1]); ctr = (0, 0, 0, 0)
                if r != 0: res.bad('ret', 'seedexpander_init returns %s' % (r,))
                if sc[2]:
                    cb, ctr = M.sym_buf('ctr', 4); M.solver.assume.append(eq(8, tm.and_(8, ctr[0], 0xf0), 0)); M.call('vf_setctr', [c.base, cb.base], 'helper')
                S = Exp(A.f, sv, dv, sc[1], ctr)
                for i, n in enumerate(sc[3]):
                    w = S.gen(n); o = M.out_buf('o%d' % i, n if w is not None else 0); r = call('seedexpander', c.base, o.base, n)
                    if w is None:
                        if r == 0: res.bad('ret', 'a request of %d bytes beyond the budget is accepted' % n)
                    else:
                        if r != 0: res.bad('ret', 'a request of %d bytes within the budget returns %s' % (n, r))
                        pairs += zip(H.read(M, o, 0, n), w)
            pairs += zip(H.read(M, seed, 0, 32), sv); pairs += zip(H.read(M, div, 0, 8), dv)
    except LookupError as e: res.bad('missing', str(e))
    except Violation as e: res.bad('violation', str(e), vkind=e.kind)
    except PathEnd as e: res.bad('pathend', str(e))
    except Unsupported as e: res.bad('unsupported', str(e))
    res.outputs += len(pairs)
    bad = [(a, b) for a, b in pairs if a is not b and not (type(a) is int and a == b)]
    res.same = [(a, b) for a, b in pairs if type(a) is T and a is b]
    for g in range(0, len(bad), 16):
        c = 0
        for a, b in bad[g:g + 16]: c = tm.or_(1, c, tm.xor(1, tm.eq(8, a, b), 1))
        r, env = smt.bv_check([c] + M.solver.assume, 30, 'rng')
        if r == 'unsat': continue
        res.bad('value', 'output differs from the specified stream (%s)' % r)
        res.env.append({str(t.a[0]): v for t, v in (env or {}).items()})
        if len(res.env) > 2: break
    if op not in ('expinit', 'budget') and not A.calls and A.order and not res.problems: res.bad('unsupported', 'AES is not reached through the EVP interface')
    res.env += A.memo.envs
    H.finish(res, M, None, t0)
    return res

def scripts_job(scs):
    tot = H.Res('ref/nistkat/%d call sequences' % len(scs)); t0 = time.time(); fail = []; same = []
    for sc in scs:
        r = run(sc)
        tot.steps += r.steps; tot.instrs += r.instrs; tot.funcs |= r.funcs; tot.outputs += r.outputs; tot.obl += r.obl; tot.events += r.events
        for p in r.problems: p['script'] = sc; tot.problems.append(p)
        if r.problems: fail.append((sc, r.problems, r.env))
        if len(fail) > 6: break
        same += r.same
    from . import sponge
    tot.problems += sponge.decide(same)
    tot.nodes = tm.nnodes(); tot.wall = time.time() - t0; tot.info = dict(first=str(scs[0])[:80], last=str(scs[-1])[:80])
    d = runner.summarize(tot); d['fail'] = fail[:6]
    return d

FF = [255] * 16
def scripts(tier):
    q = tier == 'quick'; rnd = random.Random(21); out = []
    for n in list(range(0, 50 if q else 130)) + ([63, 64, 65, 80] if q else [255, 256, 257]): out.append(('drbg', n % 2 == 1, [n], None))
    for ns in ([48, 0, 17], [16, 16, 16], [1, 15, 31, 33], [0, 0, 5], [32, 64, 1]): out += [('drbg', False, ns, None), ('drbg', True, ns, None)]
    for i in range(10 if q else 60): out.append(('drbg', bool(i & 1), [rnd.choice((0, 1, 15, 16, 17, 31, 32, 48, 49)) for _ in range(rnd.choice((2, 3, 4)))], None))
    for j in range(16): out.append(('drbg', False, [70], [7] * (15 - j) + [255] * j + [254]))
    out += [('drbg', False, [4128 if q else 16400], [0] * 16), ('drbg', False, [2080], FF[:2] + [0x12] * 11 + [255, 255, 200])]
    if not q: out += [('drbg', False, [1 << 20], [1] * 13 + [255, 3, 9])]
    out += [('update', True), ('update', False), ('expinit',)]
    for L, p in ((0, []), (1, []), (100, []), (100, [50]), (17, [16]), (300, [1, 20]), ((1 << 32) - 1, []), (5000, [33, 7])): out.append(('budget', L, p))
    for n in range(0, 70): out.append(('exp', 1000 + n, n % 3 == 0, [n, 200 - n]))
    for p in range(0, 17):
        for n in (0, 1, 15 - p, 16 - p, 17 - p, 32 - p, 33 - p, 48):
            if n >= 0: out.append(('exp', rnd.choice((256, 65536, 0xfffffffe, 0x01020304)), n % 2 == 0, [p, n, 19]))
    for i in range(30 if q else 300):
        L = rnd.choice((40, 64, 100, 257)); ns = [rnd.choice((0, 1, 5, 15, 16, 17, 30, 33, 48, L + 1, L + 100, 1 << 33)) for _ in range(rnd.choice((3, 5, 7)))]
        left = L; ok = []
        for n in ns:
            if n == left: n += 1
            if n < left: left -= n
            ok.append(n)
        out.append(('exp', L, i % 2 == 0, ok))
    out += [('exp', 1 << 20, False, [4095, 1, 4200]), ('exp', 1 << 20, False, [8193, 40])] + ([] if q else [('exp', 1 << 24, False, [1 << 20, (1 << 20) + 100])])
    return out

def jobs(tier):
    scs = scripts(tier); random.Random(3).shuffle(scs); n = 16; to = 500 if tier == 'quick' else 3000
    return [('ref nistkat %d' % i, scripts_job, (scs[i::n],), to) for i in range(n)]

# ------------------------------------------------------------------ native replay
STUB = r'''
#include <stdlib.h>
#include <string.h>
typedef struct { unsigned char k[32]; } C;
void (*vf_aes)(const unsigned char *, const unsigned char *, unsigned char *);
void *EVP_CIPHER_CTX_new(void) { return calloc(1, sizeof(C)); }
void EVP_CIPHER_CTX_free(void *c) { free(c); }
int EVP_CIPHER_CTX_reset(void *c) { (void)c; return 1; }
int EVP_CIPHER_CTX_set_padding(void *c, int n) { (void)c; (void)n; return 1; }
const void *EVP_aes_256_ecb(void) { static int x; return &x; }
int EVP_EncryptInit_ex(void *c, const void *t, void *e, const unsigned char *k, const unsigned char *iv) { (void)t; (void)e; (void)iv; if (k) memcpy(((C *)c)->k, k, 32); return 1; }
int EVP_EncryptInit_ex2(void *c, const void *t, const unsigned char *k, const unsigned char *iv, void *e) { return EVP_EncryptInit_ex(c, t, e, k, iv); }
int EVP_EncryptUpdate(void *c, unsigned char *o, int *l, const unsigned char *i, int n) { for (int j = 0; j + 16 <= n; j += 16) { unsigned char b[16]; vf_aes(((C *)c)->k, i + j, b); memcpy(o + j, b, 16); } *l = n; return 1; }
int EVP_EncryptFinal_ex(void *c, unsigned char *o, int *l) { (void)c; (void)o; *l = 0; return 1; }
void ERR_print_errors_fp(void *f) { (void)f; }
'''
def natlib():
    out = os.path.join(build.scratch(), 'nat_rng.so')
    if not os.path.exists(out):
        s = out + '.stub.c'
        with open(s, 'w') as f: f.write(STUB)
        build.sh(['gcc', '-shared', '-fPIC', '-w', '-O1', '-I' + dirs(), os.path.join(dirs(), 'rng.c'), helper(), s, '-o', out + '.tmp', '-Wl,-Bsymbolic']); os.rename(out + '.tmp', out)
    return out

CB = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)
def one(lib, sc, env, rnd):
    """run a script natively with AES replaced by a table of chosen results -> None | description"""
    tab = {}
    special = [bytes(FF), bytes(15) + b'\xff', bytes(FF[:15]) + b'\xfe', bytes(12) + bytes(FF[:4]), b'\x01' + bytes(FF[:15])]
    pin = []
    def aes(k, b):
        k = bytes(k); b = bytes(b)
        r = tab.get((k, b))
        if r is None:
            n = len(tab)
            if op == 'drbg' and sc[3] is not None and n < 3: r = [bytes(16), bytes(16), bytes(sc[3])][n]
            else:
                r = bytes(env.get('aes%d.%d' % (n, i), rnd.randrange(256)) for i in range(16)) if any('aes%d.%d' % (n, i) in env for i in range(16)) else rnd.choice(special) if rnd.random() < .4 else rnd.randbytes(16)
            tab[k, b] = r
        return list(r)
    op = sc[0]
    cb = CB(lambda k, b, o: ctypes.memmove(o, bytes(aes(ctypes.string_at(k, 32), ctypes.string_at(b, 16))), 16))
    ctypes.c_void_p.in_dll(lib, 'vf_aes').value = ctypes.cast(cb, ctypes.c_void_p).value
    def data(nm, n): return bytes(env.get('%s[%d]' % (nm, i), rnd.choice((0, 255, rnd.randrange(256)))) for i in range(n))
    def buf(d, n=None):
        b = native.Buf(len(d) if n is None else n, 1, 3); b.set(d); return b
    U = ctypes.c_ulong; ULL = ctypes.c_ulonglong
    def diff(g, w, what):
        if list(g) != [int(x) for x in w]: return dict(kind=what, got=bytes(g)[:48].hex(), expected=bytes(w)[:48].hex(), length=len(w))
    if op == 'drbg':
        e = data('entropy', 48) if sc[3] is None else bytes(48); p = data('pers', 48) if sc[1] else None
        be = buf(e); bp = buf(p) if p else None
        lib.randombytes_init(be.ptr, bp.ptr if bp else None, 256)
        S = Spec(aes, [0] * 32, [0] * 16); S.update(list(e) if not p else [a ^ b for a, b in zip(e, p)])
        for n in sc[2]:
            o = buf(b'', n); o.v[:] = 0xcc; r = lib.randombytes(o.ptr, ULL(n))
            d = diff(o.get(), S.gen(n), 'wrong DRBG output')
            if d: return d
            if not o.intact(): return dict(kind='write outside the output')
            if r != 0: return dict(kind='randombytes returns %d' % r)
    elif op == 'update':
        k = data('key', 32); v = data('V', 16); d = data('data', 48); bk = buf(k); bv = buf(v); bd = buf(d)
        if rnd.random() < .5 and not env: v = rnd.choice(special); bv.set(v)
        lib.AES256_CTR_DRBG_Update(bd.ptr if sc[1] else None, bk.ptr, bv.ptr)
        S = Spec(aes, list(k), list(v)); S.update(list(d) if sc[1] else None)
        return diff(bk.get() + bv.get() + bd.get(), S.key + S.V + list(d), 'wrong DRBG state after the update')
    else:
        c = buf(bytes(rnd.randbytes(lib.vf_size())), lib.vf_size()) if 0 else native.Buf(lib.vf_size(), 8)
        s = data('seed', 32); v = data('div', 8); bs = buf(s); bv = buf(v)
        if op == 'expinit':
            for n in [env.get('maxlen', 0), (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40, 5]:
                r = lib.seedexpander_init(c.ptr, bs.ptr, bv.ptr, U(n))
                if (r == 0) != (n < 1 << 32): return dict(kind='budget %d: seedexpander_init returns %d' % (n, r))
            return None
        if op == 'budget':
            for x in [env.get('xlen', 0), sc[1] + 1, sc[1] + 2, 1 << 32, (1 << 32) + 1, 1 << 63, (1 << 64) - 1, (1 << 31), (1 << 64) - 16]:
                lib.seedexpander_init(c.ptr, bs.ptr, bv.ptr, U(sc[1])); left = sc[1]
                for n in sc[2]:
                    o = buf(b'', n); lib.seedexpander(c.ptr, o.ptr, U(n)); left -= n
                if x <= left: continue
                o = buf(b'', 0); r = lib.seedexpander(c.ptr, o.ptr, U(x))
                if r == 0: return dict(kind='a request of %d bytes with %d left is accepted' % (x, left))
                if not o.intact(): return dict(kind='a refused request wrote output')
            return None
        lib.seedexpander_init(c.ptr, bs.ptr, bv.ptr, U(sc[1])); ctr = (0, 0, 0, 0)
        if sc[2]:
            ctr = list(data('ctr', 4)); ctr[0] &= 15
            if not any(k.startswith('ctr') for k in env) and rnd.random() < .7: ctr = rnd.choice(([0, 0, 0, 255], [0, 0, 255, 255], [1, 255, 255, 255], [0, 0, 0, 254], [0, 255, 255, 254]))
            b = buf(bytes(ctr)); lib.vf_setctr(c.ptr, b.ptr)
        S = Exp(aes, list(s), list(v), sc[1], ctr)
        for n in sc[3]:
            w = S.gen(n)
            o = buf(b'', n if w is not None else 0); o.v[:] = 0xcc; r = lib.seedexpander(c.ptr, o.ptr, U(n))
            if not o.intact(): return dict(kind='write outside the output', length=n)
            if (w is None) != (r != 0): return dict(kind='request of %d bytes with %d left returns %d' % (n, S.left, r))
            if w is not None:
                d = diff(o.get(), w, 'wrong seed expander output')
                if d: return d
        if bs.get() != s or bv.get() != v: return dict(kind='input modified')
    return None

def replay(fails, budget):
    def go():
        lib = ctypes.CDLL(natlib()); end = time.time() + budget; rnd = random.Random(6)
        cands = [(sc, e) for sc, ps, envs in fails for e in (envs or [{}])[:6]] + [(sc, {}) for sc, ps, envs in fails] * 4
        ex = [s for s in scripts('quick') if not any(type(x) is int and x > 3000 for y in s if isinstance(y, list) for x in y)]
        cands += [(sc, {}) for _ in range(6) for sc in ex]
        for sc, e in cands:
            if time.time() > end: break
            d = one(lib, sc, e, rnd)
            if d: return dict(d, script=repr(sc), model=str(e)[:300])
    st, v = native.isolated(go, budget + 60)
    if st == 'crash': return [dict(kind='crash', signal=v)]
    if st == 'ok' and v: return [v]
    log('replay', st, str(v)[:200])
    return []

def confirm(o, budget):
    fails = [f for n, fs in o.fails for f in fs]
    js = [('replay', replay, (fails, budget / 2), budget + 60)]
    return [x for st, v in runner.run_jobs(js, 8, budget + 60).values() if st == 'ok' for x in v]

B = 'AES-256 is an uninterpreted function reached through the EVP interface (its success is assumed). DRBG: every entropy input and personalisation, every key and counter value, request lengths 0..50 and selected ones up to 4128 (thorough: 0..130, up to 2^20), sequences of up to 4 requests, counters with carries of every length. Seed expander: every seed, diversifier and counter below 2^28, every budget, every over-long request (64-bit), request splits covering every buffer position, up to 7 requests. Outside: requests of 2^31 bytes and more'
CHECKS = {'C21': dict(jobs=jobs, confirm=confirm, bounds=B)}
