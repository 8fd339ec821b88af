"""Symbolic machine: memory, calls, control flow."""
from . import terms as tm
from .terms import *
from . import vec
from .vec import *
from .ir import Module, FCompiler, V, size_of, ipdoms, liveness, IRError, field_off

SECRET = 1; PUBLIC = 2; UNINIT = 4; STATE = 8; PRIOR = 16

class PathEnd(Exception):
    pass
class Unsupported(Exception):
    pass
class Violation(Exception):
    def __init__(s, kind, msg, **kw):
        Exception.__init__(s, '%s: %s' % (kind, msg)); s.kind = kind; s.msg = msg; s.info = kw

class Obj:
    __slots__ = ('id', 'base', 'size', 'own', 'val', 'name', 'ro', 'fill', 'epoch', 'align', 'kind')
    def clone(s, epoch):
        o = Obj()
        o.id = s.id; o.base = s.base; o.size = s.size; o.own = s.own[:]; o.val = dict(s.val)
        o.name = s.name; o.ro = s.ro; o.fill = s.fill; o.epoch = epoch; o.align = s.align; o.kind = s.kind
        return o

class World:
    """compiled program: list of Modules plus asm modules"""
    def __init__(self, modules, split=False, ub=True, asm=()):
        self.modules = {m.name: m for m in modules}
        self.split = split; self.ub = ub
        self.ns = {k: v for k, v in vec.__dict__.items() if not k.startswith('__')}
        self.cache = {}
        self.gfun = {}; self.gvar = {}
        for m in modules:
            for n, f in m.funcs.items():
                if not f.internal: self.gfun[n] = (m, f)
            for n, g in m.globals.items():
                if not g['internal'] and not g['external']: self.gvar[n] = (m, g)
        self.asm = {}
        for a in asm:
            for n in a.functions: self.asm[n] = a

    def lookup(self, mod, name):
        m = self.modules.get(mod)
        if m is not None and name in m.funcs: return m, m.funcs[name]
        return self.gfun.get(name)

    def compiled(self, m, f):
        k = (m.name, f.name)
        c = self.cache.get(k)
        if c is None:
            c = self.cache[k] = FCompiler(m, f, self, self.split, self.ub).compile()
        return c

class Frame:
    __slots__ = ('c', 'b', 'R', 'dest', 'allocas')
    def __init__(s, c, R, dest):
        s.c = c; s.b = 0; s.R = R; s.dest = dest; s.allocas = []
    def copy(s):
        f = Frame(s.c, s.R[:], s.dest); f.b = s.b; f.allocas = s.allocas[:]
        return f

STATE_NAMES = frozenset()
class CtLimit(Exception): pass
CT_LIMIT = None

class Machine:
    def __init__(self, world, hooks=None):
        self.world = world
        self.objs = {}
        self.nextid = 1
        self.epoch = 0
        self.hooks = dict(hooks or {})
        self.stack = []
        self.steps = 0             # segments executed (transitions)
        self.instrs = 0
        self.pc = []               # path condition (1-bit terms)
        self.globals = {}
        self.obl = []              # undischarged UB obligations: (kind, cond_bad, where, pc)
        self.ctn = 0
        self.events = []           # CT events: (kind, term, where)
        self.forks = 0
        self.solver = None         # smt.Ctx
        self.max_steps = 30_000_000
        self.gwrites = set()      # mutable globals written
        self.state_names = STATE_NAMES  # mutable globals with arbitrary contents (any call history)
        self.faddr = {}
        self.fbyaddr = {}
        self.funcs_run = set()
        self.on_sym_branch = None
        self.errno = None
        self.oob_ok = False
        self.reads = None
        self.ct = False

    # ------------------------------------------------------------ objects
    def new_obj(self, size, align=1, name='obj', ro=False, fill=None, kind='buf'):
        o = Obj()
        o.id = self.nextid; self.nextid += 1
        o.base = (o.id << 32) + 0x100000 + align
        o.size = size; o.own = [-1] * size; o.val = {}; o.name = name; o.ro = ro; o.fill = fill
        o.epoch = self.epoch; o.align = align; o.kind = kind
        self.objs[o.id] = o
        return o

    def alloca(self, size, align, name):
        if size.__class__ is not int: raise Unsupported('variable length alloca')
        o = self.new_obj(size, align, name, kind='stack')
        self.stack[-1].allocas.append(o.id)
        return o.base

    def sym_buf(self, name, n, lab=0, align=1, ew=8, ro=False, vals=None):
        """buffer of n elements of ew bits, symbolic (or given values)"""
        o = self.new_obj(n * ew // 8, align, name, ro)
        nb = ew // 8
        vs = []
        for i in range(n):
            v = sym('%s[%d]' % (name, i), ew, lab) if vals is None else vals[i]
            vs.append(v)
            self.raw_store(o, i * nb, nb, v)
        return o, vs

    def out_buf(self, name, size, align=1):
        return self.new_obj(size, align, name, fill=('prior', name), kind='out')

    def gaddr(self, mod, name, off):
        k = self.globals.get((mod, name))
        if k is None: k = self._global(mod, name)
        return k + off

    def _global(self, mod, name):
        m = self.world.modules.get(mod)
        g = None
        if m is not None and name in m.globals and not m.globals[name]['external']: gm, g = m, m.globals[name]
        elif name in self.world.gvar: gm, g = self.world.gvar[name]
        if g is None:
            fn = self.world.lookup(mod, name)
            if fn is not None or name in self.world.asm or name in self.hooks or (m is not None and name in m.decls):
                if (mod, name) not in self.faddr:
                    a = (1 << 60) + len(self.faddr) * 16
                    self.faddr[(mod, name)] = a; self.fbyaddr[a] = (mod, name)
                self.globals[(mod, name)] = self.faddr[(mod, name)]
                return self.faddr[(mod, name)]
            if name.startswith('__sancov') or True:
                raise Unsupported('unresolved global ' + name)
        key = (gm.name, name)
        if key in self.globals:
            self.globals[(mod, name)] = self.globals[key]
            return self.globals[key]
        sz = size_of(g['ty'])
        o = self.new_obj(sz, max(g['align'], 1), '@' + name, ro=g['const'], kind='global')
        self.globals[key] = self.globals[(mod, name)] = o.base
        if not g['const'] and name in self.state_names:
            o.fill = ('state', name)
        else:
            self._init(gm, o, 0, g['ty'], g.get('init', ('zero',)))
        return o.base

    def _init(self, m, o, off, ty, v):
        if ty.k in ('i', 'p', 'f'):
            nb = size_of(ty)
            if type(v) is tuple:
                if v[0] == 'addr': v = self.gaddr(m.name, v[1], v[2])
                else: v = 0
            self.raw_store(o, off, nb, v)
        elif ty.k in ('a', 'v'):
            es = size_of(ty.e)
            for i in range(ty.n):
                self._init(m, o, off + i * es, ty.e, v[1][i] if v[0] == 'list' else v)
        elif ty.k == 's':
            for i, f in enumerate(ty.fs):
                self._init(m, o, off + field_off(ty, i), f, v[1][i] if v[0] == 'list' else v)

    # ------------------------------------------------------------ raw memory
    def raw_store(self, o, off, nb, v):
        own = o.own
        e = o.val.get(off)
        if e is not None and e[1] == nb and own[off] == off:
            o.val[off] = (v, nb); return
        # break overlapping entries
        s = own[off]
        if s >= 0 and s != off: self._split(o, s)
        s = own[off + nb - 1]
        if s >= 0 and s + o.val[s][1] > off + nb: self._split(o, s)
        for i in range(off, off + nb):
            if own[i] == i: o.val.pop(i, None)
            own[i] = off
        o.val[off] = (v, nb)

    def _split(self, o, s):
        v, nb = o.val.pop(s)
        for i in range(nb):
            o.own[s + i] = s + i
            o.val[s + i] = (ext(v, 8 * i, 8), 1)

    def _fillbyte(self, o, i):
        f = o.fill
        if f is None:
            if o.kind == 'stack' or o.kind == 'heap' or o.kind == 'out':
                t = fresh('uninit:%s+%d' % (o.name, i), 8, UNINIT)
            else: raise Violation('uninit', 'read of unset byte %d of %s' % (i, o.name))
        elif f[0] == 'zero': t = 0
        elif f[0] == 'prior': t = sym('prior:%s[%d]' % (f[1], i), 8, PRIOR | UNINIT)
        elif f[0] == 'state': t = sym('state:%s[%d]' % (f[1], i), 8, STATE)
        o.own[i] = i; o.val[i] = (t, 1)
        return t

    def raw_load(self, o, off, nb):
        e = o.val.get(off)
        if e is not None and e[1] == nb: return e[0]
        own = o.own
        ps = []; i = off; end = off + nb
        while i < end:
            s = own[i]
            if s < 0:
                ps.append((self._fillbyte(o, i), 8)); i += 1; continue
            v, k = o.val[s]
            j = min(s + k, end)
            ps.append((ext(v, 8 * (i - s), 8 * (j - i)), 8 * (j - i)))
            i = j
        return cat(ps)

    def find(self, addr, nb, write, align):
        o = self.objs.get(addr >> 32)
        if o is None:
            raise Violation('oob', '%s of %d bytes at invalid address %#x' % ('write' if write else 'read', nb, addr), where=self.where())
        off = addr - o.base
        if off < 0 or off + nb > o.size:
            raise Violation('oob', '%s of %d bytes at offset %d of %s (size %d)' % ('write' if write else 'read', nb, off, o.name, o.size),
                            where=self.where(), obj=o.name, off=off, nb=nb, size=o.size, write=write)
        if align > 1 and addr % align:
            raise Violation('align', '%s of %d bytes at offset %d of %s needs alignment %d' % ('write' if write else 'read', nb, off, o.name, align),
                            where=self.where(), obj=o.name)
        if write:
            if o.ro: raise Violation('rowrite', 'write to read-only object %s offset %d' % (o.name, off), where=self.where(), obj=o.name)
            if o.kind == 'global' and o.name[0] == '@': self.gwrites.add(o.name[1:])
            if o.epoch != self.epoch:
                o = o.clone(self.epoch); self.objs[o.id] = o
        return o, off

    def where(self):
        return '>'.join(f.c.name for f in self.stack[-4:])

    # ------------------------------------------------------------ IR accessors
    def ld(self, p, nb, align=1):
        if p.__class__ is not int:
            p2 = self.resolve(p)
            if p2.__class__ is not int: return self.ld_sym(p2, nb, align, False)
            p = p2
        o = self.objs.get(p >> 32)
        if o is not None:
            off = p - o.base
            e = o.val.get(off)
            if e is not None and e[1] == nb and p % align == 0:
                return e[0]
        o, off = self.find(p, nb, False, align)
        return self.raw_load(o, off, nb)

    def st(self, p, nb, v, align=1):
        if p.__class__ is not int:
            p2 = self.resolve(p)
            if p2.__class__ is not int: return self.st_sym(p2, nb, v, align)
            p = p2
        o, off = self.find(p, nb, True, align)
        self.raw_store(o, off, nb, v)

    def ldv(self, p, w, n, align=1):
        nb = w * n // 8
        if p.__class__ is not int:
            p2 = self.resolve(p)
            if p2.__class__ is not int:
                x = self.ld_sym(p2, nb, align, True); return V(w, [ext(x, i * w, w) for i in range(n)])
            p = p2
        o, off = self.find(p, nb, False, align)
        own = o.own
        s = own[off]
        if s == off:
            k = o.val[s][1]
            if nb % k == 0 and k * 8 <= 64:
                l = []
                for i in range(off, off + nb, k):
                    e = o.val.get(i)
                    if e is None or e[1] != k: break
                    l.append(e[0])
                else:
                    return V(k * 8, l)
        # try natural lanes of 8 bits..w
        e = w // 8
        return V(w, [self.raw_load(o, off + i * e, e) for i in range(n)])

    def stv(self, p, w, n, v, align=1):
        nb = w * n // 8
        if p.__class__ is not int:
            p2 = self.resolve(p)
            if p2.__class__ is not int:
                return self.st_sym(p2, nb, v2s(v, nb * 8), align)
            p = p2
        o, off = self.find(p, nb, True, align)
        lw = v.lw; l = v.l
        if lw < 8: lw = w; l = relane(v, w)
        k = lw // 8
        for i, x in enumerate(l):
            self.raw_store(o, off + i * k, k, x)

    def resolve(self, p):
        """hook for facts"""
        return p

    def split_addr(self, p):
        """symbolic pointer -> list of (cond, concrete address)"""
        if self.ct or True: self.event('addr', p)
        cands = enum_values(p, 4096)
        if cands is None: raise Unsupported('symbolic address ' + show(p))
        return cands

    def ld_sym(self, p, nb, align, vecp):
        cands = self.split_addr(p)
        r = None
        bad = None
        for a in cands:
            try:
                o, off = self.find(a, nb, False, align)
                v = self.raw_load(o, off, nb)
            except Violation as e:
                self.obl.append((e, eq(64, p, a), self.where(), list(self.pc)))
                continue
            r = v if r is None else ite(eq(64, p, a), v, r, nb * 8)
        return r if r is not None else fresh('badload', nb * 8)

    def st_sym(self, p, nb, v, align):
        cands = self.split_addr(p)
        for a in cands:
            try:
                o, off = self.find(a, nb, True, align)
            except Violation as e:
                self.obl.append((e, eq(64, p, a), self.where(), list(self.pc)))
                continue
            old = self.raw_load(o, off, nb)
            self.raw_store(o, off, nb, ite(eq(64, p, a), v, old, nb * 8))

    def gatherq(self, src, base, idx, mask, scale):
        ix = relane(idx, 64); mk = relane(mask, 64); sr = relane(src, 64)
        out = []
        for i, x in enumerate(ix):
            m = ext(mk[i], 63, 1)
            if m.__class__ is not int: raise Unsupported('symbolic gather mask')
            if not m: out.append(sr[i]); continue
            a = add(64, base, mul(64, x, scale))
            out.append(self.ld(a, 8, 1))
        return V(64, out)

    def memcpy(self, d, s, n, vol=0):
        if n.__class__ is not int: raise Unsupported('memcpy symbolic length')
        if n == 0: return
        od, do = self.find(d, n, True, 1)
        os_, so = self.find(s, n, False, 1)
        self._copy(od, do, os_, so, n)

    def memmove(self, d, s, n, vol=0):
        self.memcpy(d, s, n)

    def _copy(self, od, do, os_, so, n):
        ents = []
        i = so; end = so + n
        while i < end:
            st = os_.own[i]
            if st < 0:
                if os_.kind == 'stack' and os_.fill is None:
                    ents.append((i - so, 1, None)); i += 1; continue
                ents.append((i - so, 1, self._fillbyte(os_, i))); i += 1; continue
            v, k = os_.val[st]
            j = min(st + k, end)
            ents.append((i - so, j - i, ext(v, 8 * (i - st), 8 * (j - i)) if (i != st or j != st + k) else v))
            i = j
        for o, k, v in ents:
            if v is None:
                v = fresh('uninit:copy', 8, UNINIT)
            self.raw_store(od, do + o, k, v)

    def memset(self, d, v, n, vol=0):
        if n.__class__ is not int: raise Unsupported('memset symbolic length')
        if n == 0: return
        o, off = self.find(d, n, True, 1)
        for i in range(n): self.raw_store(o, off + i, 1, v)

    def undef(self, w):
        return fresh('undef', w, UNINIT)
    def stacksave(self, *a): return 0
    def stackrestore(self, *a): return None
    def nop(self, *a): return None
    def trap(self, *a): raise PathEnd('trap')

    def unreachable(self, fn):
        raise PathEnd('unreachable')

    # ------------------------------------------------------------ events
    def event(self, kind, t):
        self.events.append((kind, t, self.where(), tuple(self.pc)))
        if CT_LIMIT and t.__class__ is T and t.lab & SECRET:
            self.ctn += 1
            if self.ctn > CT_LIMIT: raise Unsupported('many secret-dependent decisions')

    def sel(self, c, a, b, w):
        if c.__class__ is not int and c.lab & SECRET and a is not b: self.event('select', c)
        return ite(c, a, b, w)

    def div(self, op, w, a, b, fn):
        if a.__class__ is not int or b.__class__ is not int:
            if not (b.__class__ is int and b & (b - 1) == 0 and op in ('udiv', 'urem')) and not (b.__class__ is int and b and b & (b - 1) == 0):
                for t in (a, b):
                    if t.__class__ is not int: self.event('div', t)
            if b.__class__ is not int:
                self.obl.append((Violation('div0', 'division by zero', where=self.where()), eq(w, b, 0), self.where(), list(self.pc)))
        elif b == 0: raise Violation('div0', 'division by zero', where=self.where())
        if op == 'sdiv' and b.__class__ is int and a.__class__ is not int:
            if srng(a)[0] >= 0 and b < 1 << (w - 1): return udiv(w, a, b)
        if op == 'srem' and b.__class__ is int and a.__class__ is not int:
            if srng(a)[0] >= 0 and b < 1 << (w - 1): return urem(w, a, b)
        return {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[op](w, a, b)

    def shift(self, op, w, a, b, fn):
        if b.__class__ is int:
            if b >= w: raise Violation('shift', 'shift amount %d >= %d in %s' % (b, w, fn), where=self.where())
            return {'shl': shlc, 'lshr': lshrc, 'ashr': ashrc}[op](w, a, b)
        if rng(b)[1] >= w:
            self.obl.append((Violation('shift', 'shift amount too large', where=self.where()), xor(1, ult(w, b, w), 1), self.where(), list(self.pc)))
        # small symbolic shift: mux
        if b.nz < w:
            f = {'shl': shlc, 'lshr': lshrc, 'ashr': ashrc}[op]
            r = a
            k = b.nz.bit_length()
            for i in range(k):
                if (b.nz >> i) & 1: r = ite(ext(b, i, 1), f(w, r, 1 << i), r, w)
            return r
        return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](w, a, b)

    def nsw(self, op, w, a, b, fn):
        if a.__class__ is int and b.__class__ is int:
            x = s_of(a, w); y = s_of(b, w)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y if op == 'mul' else x << b
            if not -(1 << (w - 1)) <= r < 1 << (w - 1):
                raise Violation('overflow', 'signed overflow (%s i%d) in %s' % (op, w, fn), where=self.where())
            return
        if op == 'shl':
            return
        la, ha = srng_(a, w); lb, hb = srng_(b, w)
        if op == 'add': lo, hi = la + lb, ha + hb
        elif op == 'sub': lo, hi = la - hb, ha - lb
        else:
            ps = [p * q for p in (la, ha) for q in (lb, hb)]; lo, hi = min(ps), max(ps)
        H = 1 << (w - 1)
        if lo < -H or hi >= H:
            W = 2 * w + 1
            f = {'add': add, 'sub': sub, 'mul': mul}[op]
            x = f(W, sext(a, w, W), sext(b, w, W))
            bad = xor(1, eq(W, x, sext(ext(x, 0, w), w, W)), 1)
            if bad.__class__ is int and not bad: return
            self.obl.append((Violation('overflow', 'signed overflow (%s i%d) in %s' % (op, w, fn), where=self.where()), bad, self.where(), list(self.pc)))

    # ------------------------------------------------------------ calls
    def call(self, name, args, mod=None):
        """run function to completion and return its value (top level)"""
        d = len(self.stack)
        r = self._enter(mod, name, args, 0)
        if r is not None: return r[0]
        self.loop(d + 1, -5)
        fr = self.stack.pop()
        self._leave(fr)
        return fr.R[0]

    def _leave(self, fr):
        for a in fr.allocas: self.objs.pop(a, None)

    def _enter(self, mod, name, args, dest):
        """push a frame, or run a hook/builtin; returns (value,) if completed"""
        if name.__class__ is not str:
            if name.__class__ is not int: raise Unsupported('symbolic call target')
            if name not in self.fbyaddr: raise Violation('badcall', 'call through invalid pointer')
            mod, name = self.fbyaddr[name]
        h = self.hooks.get(name)
        if h is not None:
            return (h(self, args),)
        fn = self.world.lookup(mod, name)
        if fn is None:
            a = self.world.asm.get(name)
            if a is not None:
                self.funcs_run.add(name)
                return (a.run(self, name, args),)
            b = getattr(self, 'lib_' + name, None)
            if b is None: raise Unsupported('call to unknown function ' + name)
            return (b(*args),)
        c = self.world.compiled(*fn)
        self.funcs_run.add(name)
        R = [None] * c.nregs
        for i in range(c.nparam):
            R[i + 1] = args[i]
        if len(self.stack) > 200: raise Unsupported('recursion')
        self.stack.append(Frame(c, R, dest))
        return None

    def loop(self, depth, stopb):
        stack = self.stack
        while True:
            fr = stack[-1]
            if fr.b == stopb and len(stack) == depth: return
            self.steps += 1
            c = fr.c
            self.instrs += c.seginstr[fr.b]
            r = c.code[fr.b](self, fr.R)
            if r.__class__ is int:
                if r >= 0: fr.b = r; continue
                # return
                if len(stack) == depth:
                    fr.b = -1
                    return
                stack.pop(); self._leave(fr)
                p = stack[-1]
                p.R[fr.dest if fr.dest else 0] = fr.R[0]
                continue
            k = r[0]
            if k == 'c':
                fr.b = r[4]
                x = self._enter(c.mod, r[1], r[2], r[3])
                if x is not None:
                    if r[3]: stack[-1].R[r[3]] = x[0]
                elif self.steps > self.max_steps: raise Unsupported('step limit')
            elif k == 'b':
                self.branch(r[1], [(r[1], r[2]), (xor(1, r[1], 1), r[3])])
            elif k == 's':
                alts = []; rest = 1
                w = r[2]
                for v, e in r[3]:
                    q = eq(w, r[1], v); alts.append((q, e)); rest = and_(1, rest, xor(1, q, 1))
                alts.append((rest, r[4]))
                self.branch(r[1], alts)

    # symbolic branch with merge at immediate post-dominator
    def branch(self, cond, alts):
        self.event('branch', cond)
        stack = self.stack
        depth = len(stack)
        fr = stack[-1]; c = fr.c
        ip = ipdoms(c)[fr.b]
        EXIT = c.retb if hasattr(c, 'retb') else len(c.code)
        stop = -5 if ip == EXIT else ip
        outs = []
        base_objs = self.objs; base_pc = len(self.pc)
        live_alts = []
        for q, e in alts:
            if q.__class__ is int:
                if q: live_alts.append((q, e))
                continue
            if self.feasible(q): live_alts.append((q, e))
        if not live_alts: raise PathEnd('infeasible')
        if len(live_alts) == 1:
            q, e = live_alts[0]
            fr.b = c.edges[e](self, fr.R)
            return
        self.forks += 1
        if self.forks > 20000: raise Unsupported('too many forks')
        for q, e in live_alts:
            f2 = fr.copy()
            del stack[depth - 1:]
            stack.append(f2)
            self.objs = dict(base_objs)
            self.epoch = self._newepoch()
            self.pc.append(q)
            f2.b = c.edges[e](self, f2.R)
            try:
                self.loop(depth, stop)
                assert len(stack) == depth
                outs.append((q, stack[-1], self.objs))
            except PathEnd:
                del stack[depth - 1:]
                stack.append(f2)
            del self.pc[base_pc:]
        if not outs: raise PathEnd('all')
        self.epoch = self._newepoch()
        # merge from last to first
        q, f, objs = outs[-1]
        if ip == EXIT: live = (0,)
        else: live = liveness(c)[ip]
        R = f.R; al = list(f.allocas)
        for q2, f2, objs2 in reversed(outs[:-1]):
            R3 = f2.R[:]
            for r in live:
                R3[r] = self._mergeval(q2, f2.R[r], R[r], c.rty.get(r))
            R = R3
            for a in f2.allocas:
                if a not in al: al.append(a)
            objs = self._mergeobjs(q2, objs2, objs)
        nf = Frame(c, R, fr.dest); nf.allocas = al
        nf.b = -1 if ip == EXIT else ip
        del stack[depth - 1:]
        stack.append(nf)
        self.objs = objs
        if ip == EXIT:
            # emulate return from this frame for the enclosing loop
            nf.b = self._retblock(c)
        return

    def _retblock(self, c):
        # segment index whose code returns -1 without touching R[0]
        if not hasattr(c, 'retb'):
            c.retb = len(c.code)
            c.code = c.code + [lambda M, R: -1]
            c.seginstr = c.seginstr + [0]
        return len(c.code) - 1

    _ep = 0
    def _newepoch(self):
        Machine._ep += 1
        return Machine._ep

    def _mergeval(self, q, a, b, ty):
        if a is b or a == b: return a
        if a is None or b is None: return a if b is None else b
        if a.__class__ is V or b.__class__ is V:
            w = min(a.lw, b.lw)
            return V(w, [ite(q, x, y, w) for x, y in zip(relane(a, w), relane(b, w))])
        if a.__class__ is T: w = a.w
        elif b.__class__ is T: w = b.w
        elif ty is not None: w = ty.w
        else: w = 64
        return ite(q, a, b, w)

    def _mergeobjs(self, q, A, B):
        out = {}
        for i in set(A) | set(B):
            a = A.get(i); b = B.get(i)
            if a is None: out[i] = b; continue
            if b is None or a is b: out[i] = a; continue
            o = a.clone(self.epoch)
            keys = set(k for k in a.val if b.val.get(k) != a.val[k]) | set(k for k in b.val if a.val.get(k) != b.val[k])
            for k in sorted(keys):
                ea = a.val.get(k); eb = b.val.get(k)
                nb = min(e[1] for e in (ea, eb) if e is not None)
                if ea is not None and eb is not None and ea[1] == eb[1]:
                    o.val[k] = (ite(q, ea[0], eb[0], 8 * ea[1]), ea[1])
                    continue
                e = ea if ea is not None else eb
                for j in range(k, k + max(x[1] for x in (ea, eb) if x is not None)):
                    va = self.raw_load(a, j, 1); vb = self.raw_load(b, j, 1)
                    self.raw_store(o, j, 1, ite(q, va, vb, 8))
            out[i] = o
        return out

    def feasible(self, q):
        if self.solver is None: return True
        return self.solver.feasible(self.pc + [q])

    # ------------------------------------------------------------ library
    def lib_memcpy(self, d, s, n): self.memcpy(d, s, n); return d
    def lib_memmove(self, d, s, n): self.memmove(d, s, n); return d
    def lib_memset(self, d, v, n): self.memset(d, ext(v, 0, 8), n); return d
    def lib_explicit_bzero(self, d, n): self.memset(d, 0, n)
    def lib_bzero(self, d, n): self.memset(d, 0, n)
    def lib_memcmp(self, a, b, n):
        if n.__class__ is not int: raise Unsupported('memcmp length')
        oa, ao = self.find(a, n, False, 1) if n else (None, 0)
        ob, bo = self.find(b, n, False, 1) if n else (None, 0)
        r = 0
        for i in reversed(range(n)):
            x = self.raw_load(oa, ao + i, 1); y = self.raw_load(ob, bo + i, 1)
            e = eq(8, x, y)
            d = sub(32, zext(x, 8, 32), zext(y, 8, 32))
            r = ite(e, r, d, 32)
        for i in range(n):     # data dependent running time
            e = eq(8, self.raw_load(oa, ao + i, 1), self.raw_load(ob, bo + i, 1))
            if e.__class__ is not int: self.event('branch', e)
        return r
    lib_bcmp = lib_memcmp
    def lib_abort(self):
        raise PathEnd('abort')
    def lib_exit(self, *a): raise PathEnd('exit')
    def lib___errno_location(self):
        if self.errno is None:
            o = self.new_obj(4, 4, 'errno', fill=('state', 'errno'), kind='global'); self.errno = o.base
        return self.errno
    def lib_malloc(self, n):
        if n.__class__ is not int: raise Unsupported('malloc size')
        return self.new_obj(n, 16, 'heap', kind='heap').base
    def lib_calloc(self, n, m):
        o = self.new_obj(n * m, 16, 'heap', kind='heap', fill=('zero',)); return o.base
    def lib_free(self, p):
        if p: self.objs.pop(p >> 32, None)
    def lib_aligned_alloc(self, a, n):
        return self.new_obj(n, a, 'heap', kind='heap').base
    def lib_posix_memalign(self, pp, a, n):
        self.st(pp, 8, self.new_obj(n, a, 'heap', kind='heap').base); return 0
    def lib___assert_fail(self, *a): raise Violation('assert', 'assertion failure', where=self.where())

_ev = {}
def enum_values(t, limit):
    """enumerate possible values of an address-like term by its structure; None if too many"""
    if t.__class__ is int: return [t]
    k = (t, limit)
    r = _ev.get(k, 0)
    if r == 0: r = _ev[k] = _enum_values(t, limit)
    return r

def _enum_values(t, limit):
    op = t.op
    if op == 'ite':
        a = enum_values(t.a[1], limit); b = enum_values(t.a[2], limit)
        if a is None or b is None: return None
        r = sorted(set(a) | set(b))
        return r if len(r) <= limit else None
    if op == 'add':
        acc = [t.a[0]]
        for k, u in t.a[1]:
            vs = enum_values(u, limit)
            if vs is None: return None
            acc = sorted(set((x + k * v) & MASK[t.w] for x in acc for v in vs))
            if len(acc) > limit: return None
        return acc
    if op == 'cat':
        acc = [0]; off = 0
        for v, w in t.a:
            vs = enum_values(v, limit)
            if vs is None: return None
            acc = [x | (v2 << off) for v2 in vs for x in acc]; off += w
            if len(acc) > limit: return None
        return acc
    if op == 'sext':
        vs = enum_values(t.a[0], limit)
        return None if vs is None else [sext(v, t.a[0].w, t.w) for v in vs]
    if op == 'xor' and len(t.a[1]) == 1:
        vs = enum_values(t.a[1][0], limit)
        return None if vs is None else [v ^ t.a[0] for v in vs]
    l, h = rng(t)
    nzc = bin(t.nz).count('1')
    if h - l < (1 << nzc) and h - l < limit: return list(range(l, h + 1))
    if nzc > 12 or (1 << nzc) > limit: return None
    bits = [i for i in range(t.w) if (t.nz >> i) & 1]
    out = [0]
    for b in bits: out += [x | (1 << b) for x in out]
    return [x for x in out if l <= x <= h]
