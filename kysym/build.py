"""Builds everything the checks need from /repo's current working tree (scratch dir only)."""
import os, subprocess, tempfile, atexit, shutil, hashlib, sys, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('KYSYM_REPO', '/repo')
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        p = os.environ.get('KYSYM_SCRATCH')
        if p: _scratch = p
        else:
            _scratch = tempfile.mkdtemp(prefix='kysym.')
            os.environ['KYSYM_SCRATCH'] = _scratch
            pid = os.getpid()
            def rm():
                if os.getpid() == pid: shutil.rmtree(_scratch, ignore_errors=True)
            atexit.register(rm)
    return _scratch

def _which(*names):
    for n in names:
        if shutil.which(n): return n
    raise RuntimeError('tool missing: ' + names[0])
CLANG = _which('clang-18', 'clang'); OPT = _which('opt-18', 'opt')

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stderr.decode(errors='replace')[-2000:])
    return r.stdout

REF_C = ['kem', 'indcpa', 'polyvec', 'poly', 'ntt', 'cbd', 'reduce', 'verify', 'fips202', 'symmetric-shake']
AVX_C = ['kem', 'indcpa', 'polyvec', 'poly', 'consts', 'rejsample', 'cbd', 'verify', 'fips202', 'fips202x4', 'symmetric-shake',
         'keccak4x/KeccakP-1600-times4-SIMD256']
AVX_S = ['fq', 'shuffle', 'ntt', 'invntt', 'basemul']
AVXF = ['-mavx2', '-mbmi2', '-mpopcnt', '-march=x86-64-v3']

def makefile_sources(impl):
    """source stems from the Makefile's SOURCES, falling back to the known list"""
    known = (REF_C, []) if impl == 'ref' else (AVX_C, AVX_S)
    try:
        txt = open(os.path.join(REPO, impl, 'Makefile')).read().replace('\\\n', ' ')
        cs = []; ss = []
        for line in txt.split('\n'):
            if line.startswith(('SOURCES', 'SOURCESKECCAK')):
                for w in line.split('=', 1)[1].split():
                    if w.endswith('.c'): cs.append(w[:-2])
                    elif w.endswith('.S'): ss.append(w[:-2])
        c = list(known[0]); s = list(known[1])
        for w in cs:
            if w not in c: c.append(w)
        for w in ss:
            if w not in s: s.append(w)
        c = [x for x in c if os.path.exists(os.path.join(REPO, impl, x + '.c'))]
        s = [x for x in s if os.path.exists(os.path.join(REPO, impl, x + '.S'))]
        return c, s
    except OSError:
        return known

def ir_text(path, inc, defs=(), avx=False, extra=()):
    key = hashlib.sha1(repr((path, inc, defs, avx, extra)).encode()).hexdigest()[:16]
    out = os.path.join(scratch(), 'ir_%s_%s.ll' % (os.path.basename(path), key))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        cmd = [CLANG, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-S', '-emit-llvm', '-w'] + \
            (AVXF if avx else []) + list(defs) + list(extra) + ['-I' + inc, path, '-o', tmp + '.0']
        sh(cmd)
        sh([OPT, '-S', '-passes=always-inline,function(sroa)', tmp + '.0', '-o', tmp])
        os.unlink(tmp + '.0')
        os.rename(tmp, out)
    return open(out).read()

def sources(impl):
    c, s = makefile_sources(impl)
    d = os.path.join(REPO, impl)
    return [os.path.join(d, x + '.c') for x in c], [os.path.join(d, x + '.S') for x in s]

def modules(impl, k, extra_c=(), only=None, defs=()):
    from .ir import Module
    cs, _ = sources(impl)
    cs = list(cs) + [os.path.join(REPO, impl, x) for x in extra_c]
    if only is not None:
        cs = [c for c in cs if os.path.basename(c)[:-2] in only]
    inc = os.path.join(REPO, impl)
    def one(c):
        return os.path.basename(c)[:-2], ir_text(c, inc, ('-DKYBER_K=%d' % k,) + tuple(defs), impl == 'avx2')
    with ThreadPoolExecutor(8) as ex:
        ts = list(ex.map(one, cs))
    return [Module(n, t) for n, t in ts]

def asm_modules(impl, k):
    from .x86 import AsmModule
    _, ss = sources(impl)
    return [AsmModule(s, os.path.join(REPO, impl), k) for s in ss]

def world(impl, k, ub=True, split=False, **kw):
    from .exec import World
    return World(modules(impl, k, **kw), split=split, ub=ub, asm=asm_modules(impl, k))

# ------------------------------------------------------------------ native builds
def native_lib(impl, k, cc='gcc', opt='-O3', extra_flags=(), extra_src=(), randombytes=False, tag=''):
    """shared library of the current tree, for replaying counterexamples and validating the executor"""
    key = hashlib.sha1(repr((impl, k, cc, opt, extra_flags, extra_src, randombytes)).encode()).hexdigest()[:16]
    out = os.path.join(scratch(), 'nat_%s_%s_%s.so' % (impl, k, key))
    if os.path.exists(out): return out
    cs, ss = sources(impl)
    if randombytes: cs = cs + [os.path.join(REPO, impl, 'randombytes.c')]
    else:
        stub = os.path.join(scratch(), 'rb_stub.c')
        if not os.path.exists(stub):
            with open(stub + '.%d' % os.getpid(), 'w') as f: f.write('#include <stddef.h>\n#include <stdint.h>\n__attribute__((weak)) void randombytes(uint8_t *o, size_t n) { (void)o; (void)n; __builtin_trap(); }\n')
            os.rename(stub + '.%d' % os.getpid(), stub)
        ss = ss + [stub]
    tmp = out + '.%d.tmp' % os.getpid()
    cmd = [cc, '-shared', '-fPIC', '-w', opt, '-fomit-frame-pointer', '-DKYBER_K=%d' % k, '-I' + os.path.join(REPO, impl)] + \
        (AVXF if impl == 'avx2' else []) + list(extra_flags) + cs + ss + list(extra_src) + ['-o', tmp]
    sh(cmd)
    os.rename(tmp, out)
    return out
