"""Checks C08 and C20: matrix sampling."""
import os, random, struct, subprocess, time, ctypes
import numpy as np
from . import gen, runner, spec, native, build, api, lemma, smt, harness as H, terms as tm
from .runner import log
Q = 3329
ALL = [(i, k) for k in (4, 3, 2) for i in ('ref', 'avx2')]

STUB = r'''
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "params.h"
#include "indcpa.h"
#include "fips202.h"
#ifdef AVX
#include "fips202x4.h"
#endif
#define NB 8192
static uint8_t S[257][NB]; static unsigned calls;
typedef struct { uint64_t magic, off, mlen; uint16_t id[4]; uint8_t m[64]; } st_t;
static unsigned id_of(const uint8_t *m, size_t n) { if (n != 34 || m[32] > 15 || m[33] > 15) return 256; return m[32] * 16 + m[33]; }
static void take(uint8_t *o, size_t n, unsigned id, uint64_t off) { for (size_t i = 0; i < n; i++) o[i] = off + i < NB ? S[id][off + i] : 0; }
void shake128_absorb_once(keccak_state *s, const uint8_t *in, size_t n) { st_t *t = (st_t *)s; calls++; t->magic = 77; t->off = 0; t->id[0] = id_of(in, n); }
void shake128_squeezeblocks(uint8_t *o, size_t nb, keccak_state *s) { st_t *t = (st_t *)s; take(o, nb * 168, t->id[0], t->off); t->off += nb * 168; }
void shake128_squeeze(uint8_t *o, size_t n, keccak_state *s) { st_t *t = (st_t *)s; take(o, n, t->id[0], t->off); t->off += n; }
void shake128_init(keccak_state *s) { st_t *t = (st_t *)s; memset(t, 0, sizeof *t); }
void shake128_absorb(keccak_state *s, const uint8_t *in, size_t n) { st_t *t = (st_t *)s; if (t->mlen + n <= 64) memcpy(t->m + t->mlen, in, n); t->mlen += n; }
void shake128_finalize(keccak_state *s) { st_t *t = (st_t *)s; calls++; t->off = 0; t->id[0] = id_of(t->m, t->mlen); }
void shake128(uint8_t *o, size_t n, const uint8_t *in, size_t m) { calls++; take(o, n, id_of(in, m), 0); }
#ifdef AVX
void shake128x4_absorb_once(keccakx4_state *s, const uint8_t *a, const uint8_t *b, const uint8_t *c, const uint8_t *d, size_t n) {
  st_t *t = (st_t *)s; calls++; t->off = 0; t->id[0] = id_of(a, n); t->id[1] = id_of(b, n); t->id[2] = id_of(c, n); t->id[3] = id_of(d, n); }
void shake128x4_squeezeblocks(uint8_t *a, uint8_t *b, uint8_t *c, uint8_t *d, size_t nb, keccakx4_state *s) {
  st_t *t = (st_t *)s; take(a, nb * 168, t->id[0], t->off); take(b, nb * 168, t->id[1], t->off); take(c, nb * 168, t->id[2], t->off); take(d, nb * 168, t->id[3], t->off); t->off += nb * 168; }
void shake128x4(uint8_t *a, uint8_t *b, uint8_t *c, uint8_t *d, size_t n, const uint8_t *e, const uint8_t *f, const uint8_t *g, const uint8_t *h, size_t m) {
  calls++; take(a, n, id_of(e, m), 0); take(b, n, id_of(f, m), 0); take(c, n, id_of(g, m), 0); take(d, n, id_of(h, m), 0); }
#endif
void randombytes(uint8_t *o, size_t n) { (void)o; (void)n; abort(); }
/* cases: op (0 keypair, 1 enc), K*K streams of NB bytes, 96 bytes of input; then the pk for enc */
int main(void) {
  static uint8_t pk[KYBER_INDCPA_PUBLICKEYBYTES], sk[KYBER_INDCPA_SECRETKEYBYTES], ct[KYBER_INDCPA_BYTES], in[96]; uint8_t op;
  while (fread(&op, 1, 1, stdin) == 1) {
    for (int i = 0; i < KYBER_K; i++) for (int j = 0; j < KYBER_K; j++) if (fread(S[i * 16 + j], 1, NB, stdin) != NB) return 9;
    if (fread(in, 1, 96, stdin) != 96) return 9;
    calls = 0;
    if (op == 0) { indcpa_keypair_derand(pk, sk, in); fwrite(pk, 1, sizeof pk, stdout); }
    else { if (fread(pk, 1, sizeof pk, stdin) != sizeof pk) return 9; indcpa_enc(ct, in, pk, in + 32); fwrite(ct, 1, sizeof ct, stdout); }
    uint8_t c = calls > 255 ? 255 : calls; fwrite(&c, 1, 1, stdout); fflush(stdout);
  }
  return 0;
}
'''
NB = 8192

def stub_exe(impl, k, san):
    d = build.scratch(); out = os.path.join(d, 'genstub_%s_%d_%d' % (impl, k, san))
    if os.path.exists(out): return out
    cs, ss = build.sources(impl)
    src = os.path.join(d, 'genstub.c')
    with open(src + '.%d' % os.getpid(), 'w') as f: f.write(STUB)
    os.rename(src + '.%d' % os.getpid(), src)
    fl = ['-w', '-DKYBER_K=%d' % k, '-I' + os.path.join(build.REPO, impl)] + (build.AVXF + ['-DAVX'] if impl == 'avx2' else []) + (['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] if san else ['-O3'])
    objs = []
    for i, c in enumerate(cs + ss):
        o = out + '.%d.%d.o' % (os.getpid(), i)
        build.sh(['gcc'] + fl + ['-c', c, '-o', o])
        if 'fips202' in os.path.basename(c): build.sh(['objcopy', '--weaken', o])
        objs.append(o)
    tmp = out + '.%d' % os.getpid()
    build.sh(['gcc'] + fl + [src] + objs + ['-o', tmp])
    for o in objs: os.unlink(o)
    os.rename(tmp, out)
    return out

def pack12(v):
    v = list(v); o = bytearray()
    for i in range(0, len(v) - 1, 2): a, b = v[i], v[i + 1]; o += bytes((a & 255, a >> 8 | (b & 15) << 4, b >> 4))
    return bytes(o)

def fill(pattern, rnd, n=900, fixed=None, style=0):
    out = []
    for i in range(n):
        c = pattern(i)
        if fixed and i in fixed: out.append(fixed[i]); continue
        if c == 'f': c = 'r' if rnd.random() < (.19, .5, .8)[style % 3] else 'a'
        x = rnd.random()
        if c == 'a': out.append(rnd.choice((0, Q - 1, 1, Q - 2, 2047, 2048)) if x < .3 else rnd.randrange(Q))
        else: out.append(rnd.choice((Q, 4095, Q + 1, 3584, 3840)) if x < .5 else rnd.randrange(Q, 4096))
    return out

def run_cases(exe, k, cases, timeout=120):
    p = spec.PAR[k]; buf = bytearray()
    for c in cases:
        buf.append(c['op'])
        for i in range(k):
            for j in range(k): buf += (pack12(c['f'][i, j]) + bytes(NB))[:NB]
        buf += c['in']
        if c['op']: buf += c['pk']
    try: r = subprocess.run([exe], input=bytes(buf), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    except subprocess.TimeoutExpired as e: return [], ('timeout', '')
    outs = []; pos = 0
    for c in cases:
        n = (p.ctb if c['op'] else p.pkb) + 1
        if pos + n > len(r.stdout): break
        outs.append(r.stdout[pos:pos + n]); pos += n
    return outs, ((r.returncode, r.stderr.decode(errors='replace')) if r.returncode else None)

def expected(k, c):
    def g(seed, k_, tr):
        return [[next4(c['f'][(i, j) if tr else (j, i)]) for j in range(k)] for i in range(k)]
    if c['op']: return bytes(spec.indcpa_enc(k, list(c['in'][:32]), list(c['pk']), c['in'][32:64], g))
    return bytes(spec.indcpa_keypair(k, c['in'][:32], g)[0])

def next4(f):
    o = [v for v in f if v < Q][:256]
    return o + [0] * (256 - len(o))            # the stream continues with zero bytes, which are accepted

def mk(k, fs, op, rnd):
    c = dict(op=op, f=fs, **{'in': rnd.randbytes(96)})
    if op: c['pk'] = b''.join(pack12([rnd.randrange(4096) for _ in range(256)]) for _ in range(k)) + rnd.randbytes(32)
    return c

def confirm_gen(impl, k, tier, groups, budget):
    """drive the real key generation and encryption with chosen XOF streams"""
    end = time.time() + budget; rnd = random.Random(7)
    cases = []; e = [(i, j) for i in range(k) for j in range(k)]
    base = [mk(k, {x: fill(gen.p_all, rnd) for x in e}, op, rnd) for op in (0, 1)]
    for g in groups:
        try:
            r = gen.one_gen(impl, k, g & 1, tier, g)
            asg = gen.assign(impl, k, gen.pattern_list(impl, tier, k), g)
        except Exception as ex: log('rerun failed', ex); continue
        models = []
        for lem, (i, j, c, sy) in list(getattr(r, 'where', {}).items()):
            if time.time() > end - budget / 2 or len(models) > 6: break
            st, info = lemma.discharge(lem, 20)
            if st == 'sat': models.append({str(s.a[0]): v for s, v in zip(sy, info)})
        pats = {(x, y): gen.pat(asg[(x * k + y) % len(asg)]) for x in range(k) for y in range(k)}
        for mo in models + [None] * 10:
            for style in range(3):
                fs = {}
                for (x, y) in e:
                    fx = None
                    if mo:
                        fx = {}
                        for nm, v in mo.items():
                            pre = 'S%d.%d[' % (x, y)
                            if nm.startswith(pre): fx[int(nm[len(pre):].split(']')[0])] = v
                    fs[x, y] = fill(pats[x, y], rnd, 900, fx, style)
                for op in ((g & 1, 1 - (g & 1)) if style == 0 else (g & 1,)): cases.append(mk(k, fs, op, rnd))
    pl = gen.pattern_list(impl, 'quick'); n = 0
    rnd2 = random.Random(5)
    while len(cases) < 400:
        cases.append(mk(k, {x: fill(gen.pat(rnd2.choice(pl)), rnd2, 900, None, n) for x in e}, n & 1, rnd2)); n += 1
    for san in (0, 1):
        exe = stub_exe(impl, k, san)
        outs, err = run_cases(exe, k, base)
        if err or [o[:-1] for o in outs] != [expected(k, c) for c in base]: log('baseline streams do not drive this build; no replay possible'); return None
        pos = 0; step = 40
        while pos < len(cases) and time.time() < end:
            ch = cases[pos:pos + step]; pos += step
            outs, err = run_cases(exe, k, ch)
            for c, o in zip(ch, outs):
                w = expected(k, c)
                if w != o[:-1]:
                    return dict(kind='wrong sample', impl=impl, k=k, op=['keypair', 'enc'][c['op']], fields={str(x): c['f'][x][:700] for x in e}, input=c['in'].hex(), got=o[:-1].hex(), expected=w.hex(),
                                how='real key generation/encryption linked against a stand-in XOF that returns the given candidate fields')
            if err: return dict(kind='crash' if err[0] != 'timeout' else 'timeout', impl=impl, k=k, report=err[1][-1500:], case=len(outs), sanitizer=bool(san),
                                fields={str(x): ch[min(len(outs), len(ch) - 1)]['f'][x][:700] for x in e})
    return None

def native_gen(K, k, impl, seed, tr):
    b = native.Buf(k * k * 512, 32); s = native.Buf(32); s.set(seed)
    f = getattr(K.l, K.n + 'gen_matrix'); f(b.ptr, s.ptr, ctypes.c_int(tr))
    v = np.frombuffer(b.get(), dtype=np.int16).reshape(k, k, 256)
    if impl == 'avx2': v = v[:, :, [H.avx_index(c) for c in range(256)]]
    return v.tolist(), s.get(), b.intact()

def confirm_seed(impl, k, trs, budget):
    """real SHAKE: gen_matrix, key generation and encryption against the specification, with solver-chosen seeds first"""
    seeds = []
    for tr in trs:
        for d in (0, .35):
            try: r = gen.run_chain(impl, k, tr, d)
            except Exception as ex: log('rerun failed', ex); continue
            for env in getattr(r, 'envs', []):
                for base in (bytes(32), None):
                    b = bytearray(base or random.Random(len(seeds)).randbytes(32))
                    for i in range(32):
                        if 'seed[%d]' % i in env: b[i] = env['seed[%d]' % i]
                    seeds.append(bytes(b))
    seeds = list(dict.fromkeys(seeds))[:60]
    def go():
        rnd = random.Random(3); K = native.Kem(impl, k); end = time.time() + budget / 2
        ok = all(native_gen(K, k, impl, s, tr)[0] == spec.gen_a(s, k, bool(tr)) for s in [rnd.randbytes(32) for _ in range(3)] for tr in (0, 1))
        todo = seeds + [bytes([x]) * 32 for x in (0, 255, 1, 128)]
        n = 0
        while time.time() < end:
            if n < len(todo): s = todo[n]
            else:
                s = bytearray(rnd.randbytes(32))
                if n & 1: s[rnd.randrange(32)] = rnd.choice((0, 255, 127, 128, 1))
                if n % 3 == 0: s[31] = n // 3 & 255
                if n % 3 == 1: s[0] = n // 3 & 255
                s = bytes(s)
            n += 1
            for tr in (0, 1):
                got, s2, intact = native_gen(K, k, impl, s, tr); want = spec.gen_a(s, k, bool(tr))
                if s2 != s: return dict(kind='seed modified', impl=impl, k=k, seed=s.hex(), after=s2.hex(), transposed=tr)
                if not intact: return dict(kind='buffer overrun', impl=impl, k=k, seed=s.hex(), transposed=tr)
                if ok and got != want:
                    d = [(i, j) for i in range(k) for j in range(k) if got[i][j] != want[i][j]]
                    return dict(kind='wrong matrix', impl=impl, k=k, seed=s.hex(), transposed=tr, entries=str(d), got=got[d[0][0]][d[0][1]][:16], expected=want[d[0][0]][d[0][1]][:16], how='gen_matrix of the natively built current tree against SHAKE128 of the specification')
        return None
    st, v = native.isolated(go, budget + 30)
    if st == 'crash': return dict(kind='crash', impl=impl, k=k, signal=v)
    if st == 'ok' and v: return v
    p = spec.PAR[k]
    asg = [dict(m=bytes(32), coins=bytes(32), pk=bytes(p.pvb) + s) for s in seeds]
    return api.search(impl, k, 'ikp', 'spec', budget / 4) or api.search(impl, k, 'ienc', 'spec', budget / 4, asg)

def jobs08(tier):
    js = []
    for impl, k in ALL:
        n = gen.ngroups(impl, k, tier); per = max(2, -(-n // (4 if tier == 'quick' else 16)))
        for a in range(0, n, per): js.append(('%s-%d gen %d' % (impl, k, a), gen.gen_job, (impl, k, tier, list(range(a, min(n, a + per)))), 500 if tier == 'quick' else 2400))
    w = ['win(%d,8,%s)' % (s, b) for s in range(0, 336, 24 if tier == 'quick' else 4) for b in ('all', 'front(70)', 'rand(1,.3)')]
    for i in range(4): js.append(('avx2-%d leaf rej %d' % (2 + i % 3, i), gen.rej_leaf_job, (2 + i % 3, w[i::4]), 400))
    return js

def jobs20(tier):
    ds = (0, .2, .35) if tier == 'quick' else (0, .05, .1, .15, .2, .25, .3, .35, .4, .5, .6)
    return [('%s-%d chain %d' % (i, k, t), chain_multi, (i, k, t, ds), 300) for i, k in ALL for t in (0, 1)]

def chain_multi(impl, k, t, ds): return [gen.chain_job(impl, k, t, d) for d in ds]

def confirm08(o, budget):
    import re
    todo = {}
    subs = [p.get('sub') for p in o.problems] + [s for l, i, own in o.sat + o.unknown for j, s in own]
    for p in o.problems:
        m = re.match(r'(ref|avx2)-(\d) ', str(p.get('job')))
        if m: todo.setdefault((m.group(1), int(m.group(2))), [])
    for s in subs:
        m = re.match(r'(ref|avx2)/K=(\d)/gen t=\d g=(\d+)', str(s))
        if m: todo.setdefault((m.group(1), int(m.group(2))), []).append(int(m.group(3)))
        m = re.match(r'(ref|avx2)/K=(\d)/rej', str(s))
        if m: todo.setdefault((m.group(1), int(m.group(2))), [])
    tier = getattr(o, 'tier', 'quick')
    js = [('confirm %s-%d' % v, confirm_gen, v + (tier, list(dict.fromkeys(g))[:4], budget), budget * 2 + 60) for v, g in todo.items()]
    return [v for st, v in runner.run_jobs(js, 8, budget * 2 + 60).values() if st == 'ok' and v]

def confirm20(o, budget):
    import re
    todo = {}
    for p in o.problems:
        m = re.match(r'(ref|avx2)-(\d) chain (\d)', str(p.get('job')))
        if m: todo.setdefault((m.group(1), int(m.group(2))), set()).add(int(m.group(3)))
    js = [('confirm %s-%d' % v, confirm_seed, v + (sorted(t), budget), budget * 2 + 60) for v, t in todo.items()]
    return [v for st, v in runner.run_jobs(js, 8, budget * 2 + 60).values() if st == 'ok' and v]

B08 = 'XOF streams as sequences of symbolic 12-bit candidates: windows of 8 (avx2) or 12 (ref; 16 in the thorough tier) candidates with any value placed at every group of the first 264 candidates, around completion (counter 240..256) after 0..417 earlier rejections, and around the block boundaries 336/448/560/672; outside the windows every candidate is symbolic within its class (accepted: any value below q; rejected: any value from q to 4095) in fixed, periodic, front-loaded and random class patterns; up to 4 extra blocks inside windows, up to 7 overall; a different pattern in every matrix entry; K in {2,3,4}; ref and avx2. Beyond: windows wider than stated, jointly free candidates far apart'
B20 = 'all 32-byte seeds (symbolic); every index pair, both orientations; real SHAKE128 and four-way SHAKE128 code over an uninterpreted Keccak permutation whose output candidates are symbolic with a fixed accepted/rejected class pattern (no, 20 % and 35 % rejections, up to 3 extra blocks); K in {2,3,4}; ref and avx2'
CHECKS = {
    'C08': dict(jobs=jobs08, confirm=confirm08, bounds=B08, rel=lambda p: p.get('kind') not in ('xof', 'frame', 'label')),
    'C20': dict(jobs=jobs20, confirm=confirm20, bounds=B20),
}
