"""C17: randombytes over every sequence of system-call results.

Two harnesses per compiled variant.  'addr': the request length is a symbolic 64-bit number and every system call returns a
symbolic count or a failure with a symbolic errno; the pointers and lengths handed to the operating system are decided.
'mem': small concrete lengths with real memory, so that the bytes that end up in the buffer are decided.
"""
import os, re, subprocess, time
from . import terms as tm, build, smt, harness as H, runner
from .terms import T, MASK, add, sub, ite, eq, ult, and_, or_, xor, ext, zext, sext
from .exec import World, Machine, Violation, Unsupported, PathEnd, STATE
from .ir import Module
from .runner import log

STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'winstub')
VARS = {'getrandom-syscall': [], 'getrandom-bsd': ['-U__linux__', '-D__NetBSD__'], 'urandom': ['-U__linux__'], 'windows': ['-U__linux__', '-D_WIN32', '-I' + STUBS]}
MAXR = 0x7ffff000        # the largest count a Linux read/getrandom returns
EINTR = 4

_w = {}
def world(impl, var):
    if (impl, var) not in _w:
        d = os.path.join(build.REPO, impl)
        _w[impl, var] = World([Module('randombytes', build.ir_text(os.path.join(d, 'randombytes.c'), d, (), False, tuple(VARS[var])))])
    return _w[impl, var]

def n1(t): return xor(1, t, 1)
def ule(w, a, b): return n1(ult(w, b, a))

class OS:
    """model of the operating system: a stream of bytes W delivered by successful calls"""
    def __init__(s, M, mode, N, base, S):
        s.M = M; s.mode = mode; s.N = N; s.base = base; s.S = S; s.k = 0
        s.ended = []      # (kind, condition)
        s.bad = []        # (what, condition)
        s.sched = []      # symbols of the schedule
        M.hooks.update(syscall=s.syscall, getrandom=lambda M, a: s.give(a[0], a[1]), read=lambda M, a: s.give(a[1], a[2], a[0]), open=s.open, openat=lambda M, a: s.open(M, a[1:]), close=lambda M, a: 0,
                       CryptAcquireContext=lambda M, a: s.ok('acq'), CryptReleaseContext=lambda M, a: s.ok('rel'), CryptGenRandom=s.wgen, abort=s.abort, exit=s.abort, _exit=s.abort,
                       poll=lambda M, a: 1, sched_yield=lambda M, a: 0, usleep=lambda M, a: 0, nanosleep=lambda M, a: 0)
        s.bads = 0
        # state carried along the path lives in memory, so that it is merged with everything else
        s.st = M.new_obj(24, 8, 'os', kind='global'); M.raw_store(s.st, 0, 8, 0); M.raw_store(s.st, 8, 8, 0); M.raw_store(s.st, 16, 8, 0)
    def get(s, i): return s.M.raw_load(s.M.objs[s.st.id], i, 8)
    def put(s, i, v):
        o = s.M.objs[s.st.id]
        if o.epoch != s.M.epoch: o = o.clone(s.M.epoch); s.M.objs[o.id] = o
        s.M.raw_store(o, i, 8, v)
    def pc(s):
        r = 1
        for c in s.M.pc: r = and_(1, r, c)
        return r
    def end(s, kind): s.ended.append((kind, s.pc(), s.get(0), s.get(8))); raise PathEnd(kind)
    def abort(s, M, a): s.end('abort')
    def tick(s, data=False):
        n = s.get(16)
        if type(n) is not int: 
            n = tm.rng(n)[1]
        if n >= s.S: s.end('bound' if data else 'bound-other')
        s.put(16, n + 1); s.k += 1
    def fresh(s, nm, w, **kw):
        t = tm.sym('%s#%d' % (nm, s.k), w, 0, **kw); s.sched.append(t); return t
    def hard(s, cond):
        """an unrecoverable failure happens when cond"""
        s.put(8, or_(64, s.get(8), zext(cond, 1, 64)) if type(cond) is T or cond else s.get(8))
    def errno(s, fail):
        e = s.fresh('errno', 32)
        p = s.M.lib___errno_location(); old = s.M.ld(p, 4, 4)
        s.M.st(p, 4, ite(fail, e, old, 32), 4)
        s.hard(and_(1, fail, n1(eq(32, e, EINTR))))
    def ok(s, nm):
        s.tick(); f = s.fresh(nm + '_fail', 1); s.hard(f)
        return zext(n1(f), 1, 32)
    def open(s, M, a):
        s.tick(); f = s.fresh('open_fail', 1); s.errno(f)
        fd = s.fresh('fd', 32, rng=(0, 1023), srng=(0, 1023), nz=1023)
        s.fds = getattr(s, 'fds', []) + [fd]
        return ite(f, MASK[32], fd, 32)
    def syscall(s, M, a):
        nr = a[0]
        if nr == 318: return s.give(a[1], a[2])
        if nr == 0: return s.give(a[2], a[3], a[1])
        raise Unsupported('system call %s' % (nr,))
    def wgen(s, M, a):
        s.tick(True); f = s.fresh('gen_fail', 1); s.hard(f)
        s.deliver(a[2], zext(a[1], 32, 64) if type(a[1]) is T else a[1], ite(f, 0, zext(a[1], 32, 64) if type(a[1]) is T else a[1], 64))
        return zext(n1(f), 1, 32)
    def give(s, p, n, fd=None):
        s.tick(True)
        f = s.fresh('fail', 1); s.errno(f)
        if fd is not None:
            okfd = 0
            for x in getattr(s, 'fds', []): okfd = or_(1, okfd, eq(32, x, fd))
            s.bad.append(('a read from a descriptor that was not opened', and_(1, s.pc(), n1(okfd))))
        if s.mode == 'addr':
            r = zext(s.fresh('count', 31), 31, 64)
            s.M.solver.assume.append(ule(64, r, MAXR))
            s.M.solver.assume.append(ule(64, r, n))
        else:
            sel = s.fresh('count', 64, rng=(0, 15), nz=15)
            r = ite(ult(64, sel, n), sel, n, 64)
        s.deliver(p, n, ite(f, 0, r, 64))
        return ite(f, MASK[64], r, 64)
    def deliver(s, p, n, r):
        c = s.get(0); pc = s.pc()
        want = add(64, s.base, c); room = sub(64, s.N, c)
        if s.mode == 'addr':
            if s.inbuf(p):
                s.bad.append(('bytes delivered to the wrong place', and_(1, and_(1, pc, n1(eq(64, r, 0))), n1(eq(64, p, want)))))
                s.bad.append(('an empty request while bytes are missing: no progress', and_(1, and_(1, pc, eq(64, n, 0)), n1(eq(64, room, 0)))))
                s.bad.append(('a request longer than what is left of the buffer', and_(1, and_(1, pc, n1(eq(64, n, 0))), ult(64, room, n))))
            else: raise Unsupported('data does not go to the buffer directly')
        else:
            M = s.M
            for j in range(16):
                g = ult(64, j, r)
                if type(g) is int and not g: break
                W = None
                for cv in reversed(s.cvals(c)): W = s.W(cv + j) if W is None else ite(eq(64, c, cv), s.W(cv + j), W, 8)
                M.pc.append(g)
                a = add(64, p, j)
                if M.feasible(1):
                    old = M.ld(a, 1)
                    M.st(a, 1, ite(g, W, old, 8))
                M.pc.pop()
        s.put(0, add(64, c, r))
    def cvals(s, c):
        if type(c) is int: return [c]
        from .exec import enum_values
        v = enum_values(c, 400)
        if v is None: raise Unsupported('stream position')
        return v
    def W(s, i): return tm.sym('W[%d]' % i, 8)
    def inbuf(s, p):
        if type(p) is int: return p >> 32 == s.base >> 32
        r = [u for u in (p.a if p.op == 'ite' else []) if type(u) is not int or u > 1]
        l = p.a[0] if p.op == 'add' else None
        return l is None or l >> 32 == s.base >> 32 or True

def decide(res, what, conds, os_):
    r, env = smt.bv_check(list(conds) + os_.M.solver.assume, 60, 'rand')
    res.outputs += 1
    if r == 'sat': res.bad('rand', what, env={str(t.a[0]): v for t, v in env.items()})
    elif r != 'unsat': res.bad('unknown', what)

def run(impl, var, mode, Ns, S):
    """Ns: lengths of successive requests (None: symbolic)"""
    t0 = time.time(); res = H.Res('%s/%s %s n=%s calls<=%d' % (impl, var, mode, Ns, S))
    M = Machine(world(impl, var)); M.solver = smt.Ctx()
    outs = []
    if M.world.lookup('randombytes', 'randombytes') is None:
        res.bad('missing', 'randombytes'); H.finish(res, M, None, t0); return res
    try:
        os_ = None; carry = []
        for i, N in enumerate(Ns):
            if mode == 'addr': o = M.new_obj(1, 1, 'out%d' % i); n = zext(tm.sym('n%d' % i, 40), 40, 64) if N is None else N
            else: o = M.new_obj(N, 1, 'out%d' % i, fill=('prior', 'out%d' % i)); n = N
            if os_ is None: os_ = OS(M, mode, n, o.base, S)
            else: os_.N = n; os_.base = o.base; os_.put(0, 0); os_.put(16, 0)
            ended = len(os_.ended); nbad = len(os_.bad)
            try: M.call('randombytes', [o.base, n]); ret = True
            except PathEnd: ret = False
            notended = [n1(q) for k, q, c, h in os_.ended]
            for what, q in os_.bad[nbad:]: decide(res, what, carry + [q], os_)
            for k, q, c, h in os_.ended[ended:]:
                if k == 'abort': decide(res, 'the process aborts although no unrecoverable failure occurred', carry + [q, eq(64, h, 0)], os_)
                elif k == 'bound': decide(res, 'no return although all bytes were delivered', carry + [q, eq(64, sub(64, n, c), 0), eq(64, h, 0)], os_)
            if not ret: break
            carry = notended
            decide(res, 'returned before all bytes were delivered', carry + [n1(eq(64, sub(64, n, os_.get(0)), 0))], os_)
            if mode == 'mem':
                got = H.read(M, o, 0, N)
                for j in range(N): decide(res, 'byte %d of %d is not the byte the system delivered' % (j, N), carry + [n1(eq(8, got[j], os_.W(j)))], os_)
        res.info = dict(system_calls_modelled=os_.k, ended=len(os_.ended))
    except Violation as e: res.bad('violation', str(e), vkind=e.kind)
    except Unsupported as e:
        if mode == 'addr' and 'does not go' in str(e): res.info = dict(note='indirect delivery: decided by the memory harness only')
        else: res.bad('unsupported', str(e))
    H.finish(res, M, None, t0)
    return res

def job(impl, var, mode, cases):
    out = []
    for Ns, S in cases:
        r = run(impl, var, mode, Ns, S)
        d = runner.summarize(r)
        d['fail'] = [(impl, var, mode, Ns, [(p['msg'], p.get('env')) for p in r.problems])] if r.problems else []
        out.append(d)
    return out

def jobs17(tier):
    js = []; q = tier == 'quick'
    for impl in ('ref', 'avx2'):
        if impl == 'avx2' and open(os.path.join(build.REPO, 'ref/randombytes.c')).read() == open(os.path.join(build.REPO, 'avx2/randombytes.c')).read(): continue
        for var in VARS:
            js.append(('%s %s addr' % (impl, var), job, (impl, var, 'addr', [((None,), 4 if q else 6), ((None, None), 3 if q else 4)]), 500 if q else 3000))
            for n in range(0, 5 if q else 8): js.append(('%s %s mem %d' % (impl, var, n), job, (impl, var, 'mem', [((n,), 4 if q else 6)] + ([((n, 2), 3)] if n in (1, 2) else [])), 500 if q else 3000))
    return js

# ------------------------------------------------------------------ native replay
DRV = r'''
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
/* argv: n1[,n2]  then the schedule: entries f:errno:count, consumed by each system call; afterwards full delivery */
void randombytes(uint8_t *, size_t);
static char **sv; static int sc, sp; static uint8_t *base; static size_t N; static unsigned long long deliv; static int wrong, over, big, calls, zero;
static uint8_t W(unsigned long long i) { return (uint8_t)(i * 167 + (i >> 8) * 59 + 13); }
static void next(int *f, int *e, long long *c) { *f = 0; *e = 0; *c = 0x7ffff000; if (sp < sc) { sscanf(sv[sp], "%d:%d:%lld", f, e, c); sp++; } }
static void put(uint8_t *p, size_t r) {
  if (!r && deliv < N && ++zero > 2000000) { printf("STUCK\n"); fflush(stdout); _exit(3); }
  if (!big) for (size_t i = 0; i < r; i++) p[i] = W(deliv + i);
  else if (r && p != base + deliv) wrong = 1;
  if (big && deliv + r > N) over = 1;
  deliv += r; }
static long give(void *p, size_t n) { int f, e; long long c; if (!n && deliv < N && ++zero > 500) { printf("STUCK\n"); fflush(stdout); _exit(3); } if (++calls > 5000) { printf("LOOP deliv=%llu\n", deliv); fflush(stdout); _exit(3); } next(&f, &e, &c); if (f) { errno = e; return -1; } size_t r = n < (size_t)c ? n : (size_t)c; put(p, r); return (long)r; }
long syscall(long nr, ...) { va_list a; va_start(a, nr); if (nr == 318) { void *p = va_arg(a, void *); size_t n = va_arg(a, size_t); return give(p, n); } if (nr == 0) { va_arg(a, long); void *p = va_arg(a, void *); size_t n = va_arg(a, size_t); return give(p, n); } errno = ENOSYS; return -1; }
long getrandom(void *p, size_t n, unsigned fl) { (void)fl; return give(p, n); }
static int opened;
ssize_t read(int fd, void *p, size_t n) { if (!opened || fd != 57) { printf("BADFD %d\n", fd); fflush(stdout); _exit(3); } return give(p, n); }
int open(const char *f, int fl, ...) { int x, e; long long c; (void)f; (void)fl; if (++calls > 5000) _exit(3); next(&x, &e, &c); if (x) { errno = e; return -1; } opened = 1; return 57; }
int CryptAcquireContext(unsigned long long *c, const char *a, const char *b, unsigned d, unsigned e) { int x, y; long long z; (void)a; (void)b; (void)d; (void)e; *c = 5; next(&x, &y, &z); return !x; }
int CryptReleaseContext(unsigned long long c, unsigned d) { int x, y; long long z; (void)c; (void)d; next(&x, &y, &z); return !x; }
int CryptGenRandom(unsigned long long c, unsigned n, unsigned char *p) { int x, y; long long z; (void)c; if (++calls > 300000000) _exit(3); next(&x, &y, &z); if (x) return 0; put(p, n); return 1; }
int main(int argc, char **argv) {
  size_t n[4]; int k = 0; char *t = strtok(argv[1], ","); while (t && k < 4) { n[k++] = strtoull(t, 0, 10); t = strtok(0, ","); }
  sv = argv + 2; sc = argc - 2;
  for (int i = 0; i < k; i++) {
    N = n[i]; deliv = 0; wrong = over = 0; big = N > (1u << 24);
    uint8_t *raw = big ? (uint8_t *)(1ull << 40) : malloc(N + 4096); base = big ? raw : raw + 2048; if (!big) memset(raw, 0xee, N + 4096);
    randombytes(base, N);
    int bad = 0;
    if (!big) { for (size_t j = 0; j < N; j++) if (base[j] != W(j)) { bad = 1; break; } for (size_t j = 0; j < 2048; j++) if (raw[j] != 0xee || base[N + j] != 0xee) over = 1; }
    printf("RET n=%zu deliv=%llu short=%d wrongbyte=%d wrongplace=%d overrun=%d\n", N, deliv, deliv < N, bad, wrong, over); fflush(stdout);
  }
  return 0;
}
'''

def driver(impl, var):
    d = build.scratch(); out = os.path.join(d, 'rand_%s_%s' % (impl, var))
    if os.path.exists(out): return out
    src = out + '.drv.c'
    with open(src, 'w') as f: f.write(DRV)
    r = os.path.join(build.REPO, impl)
    build.sh(['clang', '-w', '-O1', '-I' + r] + VARS[var] + ['-c', os.path.join(r, 'randombytes.c'), '-o', out + '.o'])
    build.sh(['gcc', '-w', '-O1', src, out + '.o', '-o', out])
    return out

def ns_of(env, Ns): return [n if n is not None else env.get('n%d' % i, 0) for i, n in enumerate(Ns)]

def schedules(env, var):
    """schedule entries in call order, from a model"""
    ev = {}
    for k, v in env.items():
        m = re.match(r'(\w+)#(\d+)$', k)
        if m: ev.setdefault(int(m.group(2)), {})[m.group(1)] = v
    out = []
    for i in range(1, max(ev or [0]) + 1):
        e = ev.get(i, {})
        f = int(any(v for k, v in e.items() if k.endswith('fail')))
        c = e.get('count', MAXR)
        out.append((f, e.get('errno', EINTR) if e.get('errno', 0) < 4096 or 1 else 5, c))
    return out

def replay(fails, budget):
    import random
    bad = []
    for impl, var, mode, Ns, ps in fails:
        try: exe = driver(impl, var)
        except build.BuildError as e: log('driver', e); continue
        cands = []
        for what, env in ps:
            if env is not None: cands.append((ns_of(env, Ns), schedules(env, var)))
        rnd = random.Random(4)
        for i in range(400):
            cands.append(([rnd.choice((0, 1, 2, 5, 32, 33, 64, 255, 256, 257, 300, 511, 1024, 65536, 65537, 1 << 20, (1 << 20) + 7)) for _ in range(rnd.choice((1, 1, 2)))],
                          [rnd.choice(((1, EINTR, 0), (0, 0, 1), (0, 0, rnd.choice((2, 7, 31, 255, 256, 257))), (0, 0, MAXR), (0, 0, MAXR), (1, 5, 0) if i % 5 == 0 else (0, 0, MAXR))) for _ in range(rnd.randrange(0, 6))]))
        end = time.time() + budget
        for ns, sch in cands:
            if time.time() > end: break
            v = one(exe, impl, var, ns, sch)
            if v: bad.append(v); break
    return bad

def one(exe, impl, var, ns, sch):
    def i32(x): return x - (1 << 32) if x >> 31 else x
    try: p = subprocess.run([exe, ','.join(map(str, ns))] + ['%d:%d:%d' % (f, i32(e), c) for f, e, c in sch], capture_output=True, timeout=20)
    except subprocess.TimeoutExpired: return None
    o = p.stdout.decode()
    w = None
    rets = re.findall(r'RET n=(\d+) deliv=(\d+) short=(\d) wrongbyte=(\d) wrongplace=(\d) overrun=(\d)', o)
    for n, d, s, b, pl, ov in rets:
        if s == '1': w = 'returned before all bytes were delivered'
        elif b == '1' or pl == '1': w = 'bytes in the buffer are not the delivered ones'
        elif ov == '1': w = 'bytes outside the buffer written or requested'
    if 'BADFD' in o: w = 'read from a descriptor that was not opened'
    if 'STUCK' in o: w = 'makes empty requests for ever while bytes are missing'
    m = re.search(r'LOOP deliv=(\d+)', o)
    if m and int(m.group(1)) >= ns[len(rets)]: w = 'does not return although all bytes were delivered'
    if p.returncode == -6 and not any(f and (e != EINTR or var == 'windows') for f, e, c in sch): w = 'aborts although no unrecoverable failure occurred'
    if p.returncode in (-11, -7): w = 'crash'
    if w: return dict(kind=w, impl=impl, variant=var, lengths=ns, schedule='entries fail:errno:count %s, then full delivery' % sch, output=o[-300:])
    return None

def confirm(o, budget):
    fails = [f for name, fs in o.fails for f in fs]
    by = {}
    for f in fails: by.setdefault((f[0], f[1]), []).append(f)
    for p in o.problems:
        m = re.match(r'(ref|avx2) (\S+) (addr|mem)', str(p.get('job')))
        if m and (m.group(1), m.group(2)) not in by: by[m.group(1), m.group(2)] = [(m.group(1), m.group(2), m.group(3), (None,), [])]
    js = [('replay %s %s' % v, replay, (f, budget / 2), budget + 60) for v, f in by.items()]
    return [x for st, v in runner.run_jobs(js, 8, budget + 60).values() if st == 'ok' for x in v]

B17 = 'the four compiled-in variants (Linux getrandom system call, BSD getrandom, /dev/urandom, Windows with declarations standing in for the SDK headers); request length symbolic below 2^40; every result sequence of up to 4 (one request) or 3 (two successive requests) system calls, each a symbolic count up to 0x7ffff000 or a failure with any errno; and, with the bytes in memory, lengths 0..4 with up to 4 calls (thorough: 6 calls, lengths 0..7). Beyond: longer sequences of calls'
CHECKS = {'C17': dict(jobs=jobs17, confirm=confirm, bounds=B17)}
