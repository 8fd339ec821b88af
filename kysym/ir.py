"""LLVM IR (text, clang 18) -> executable Python closures over kysym.terms values."""
import re
from . import terms as tm

class IRError(Exception): pass

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'w', 'n', 'e', 'fs', 'packed', '_sz')
    def __init__(s, k, w=0, n=0, e=None, fs=None, packed=False):
        s.k = k; s.w = w; s.n = n; s.e = e; s.fs = fs; s.packed = packed; s._sz = None
    def __repr__(s):
        return {'i': 'i%d' % s.w}.get(s.k, s.k)

PTR = Ty('p', 64)
_ity = {}
def ity(w):
    if w not in _ity: _ity[w] = Ty('i', w)
    return _ity[w]

def align_of(t):
    if t.k == 'i': return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.w, 16)
    if t.k == 'p': return 8
    if t.k == 'f': return t.w // 8
    if t.k == 'v': return size_of(t)
    if t.k == 'a': return align_of(t.e)
    if t.k == 's': return 1 if t.packed else max([align_of(f) for f in t.fs] or [1])
    raise IRError('align')

def size_of(t):
    if t._sz is not None: return t._sz
    if t.k == 'i': r = (t.w + 7) // 8
    elif t.k == 'p': r = 8
    elif t.k == 'f': r = t.w // 8
    elif t.k == 'v': r = (t.n * t.e.w + 7) // 8
    elif t.k == 'a': r = t.n * size_of(t.e)
    elif t.k == 's':
        r = 0
        for f in t.fs:
            if not t.packed:
                a = align_of(f); r = (r + a - 1) // a * a
            r += size_of(f)
        if not t.packed:
            a = align_of(t); r = (r + a - 1) // a * a
    else: raise IRError('size ' + t.k)
    t._sz = r
    return r

def field_off(t, i):
    r = 0
    for j, f in enumerate(t.fs):
        if not t.packed:
            a = align_of(f); r = (r + a - 1) // a * a
        if j == i: return r
        r += size_of(f)
    raise IRError('field')

TOK = re.compile(r'\s*(c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*"|"(?:[^"])*"|[%@][-A-Za-z0-9_.$]+|[%@]"[^"]*"|!?[A-Za-z_.$][-A-Za-z0-9_.$]*|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|#\d+|![0-9]+|!|[()\[\]{}<>,=*:|])')

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            raise IRError('tok: ' + s[i:i + 60])
        out.append(m.group(1)); i = m.end()
    return out

class V:
    """vector value: lanes (low index first) of width lw"""
    __slots__ = ('lw', 'l')
    def __init__(s, lw, l): s.lw = lw; s.l = l
    def __repr__(s): return 'V%d%r' % (s.lw, s.l)
    def __eq__(s, o):
        return isinstance(o, V) and s.lw == o.lw and s.l == o.l
    def __hash__(s):
        return hash((s.lw, tuple(s.l)))

class Func:
    def __init__(s): s.blocks = None

class Module:
    def __init__(self, name, text):
        self.name = name
        self.types = {}
        self.globals = {}      # name -> dict(ty,init,const,internal,align,external)
        self.funcs = {}        # name -> Func (parsed lazily)
        self.decls = set()
        self._parse(text)

    # ---- type parser on token stream
    def ptype(self, t, i):
        k = t[i]
        if k == 'ptr': return PTR, i + 1
        if re.fullmatch(r'i\d+', k): return ity(int(k[1:])), i + 1
        if k == 'void': return Ty('void'), i + 1
        if k == 'float': return Ty('f', 32), i + 1
        if k == 'double': return Ty('f', 64), i + 1
        if k == '<':
            if t[i + 1] == '{':
                ty, i = self.ptype(t, i + 1); ty.packed = True
                return ty, i + 1
            n = int(t[i + 1]); e, j = self.ptype(t, i + 3)
            return Ty('v', e.w, n, e), j + 1
        if k == '[':
            n = int(t[i + 1]); e, j = self.ptype(t, i + 3)
            return Ty('a', 0, n, e), j + 1
        if k == '{':
            fs = []; i += 1
            while t[i] != '}':
                f, i = self.ptype(t, i); fs.append(f)
                if t[i] == ',': i += 1
            return Ty('s', fs=fs), i + 1
        if k[0] == '%':
            return self.types[k[1:]], i + 1
        if k in ('metadata', 'label'): return Ty(k), i + 1
        raise IRError('type ' + ' '.join(t[i:i + 8]))

    def _parse(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        pending = []
        while i < n:
            L = lines[i]
            if L.startswith('%') and ' = type ' in L:
                nm, rest = L.split(' = type ', 1)
                pending.append((nm[1:], rest))
            elif L.startswith('@'):
                self.globals[L.split(' = ', 1)[0].strip()[1:].strip('"')] = L
            elif L.startswith('define'):
                body = [L]; i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                m = re.search(r'@([-A-Za-z0-9_.$]+|"[^"]*")\(', L)
                f = Func(); f.name = m.group(1).strip('"'); f.mod = self; f.text = body
                f.internal = bool(re.match(r'define (internal|private) ', L))
                self.funcs[f.name] = f
            elif L.startswith('declare'):
                m = re.search(r'@([-A-Za-z0-9_.$]+|"[^"]*")\(', L)
                self.decls.add(m.group(1).strip('"'))
            i += 1
        # struct types (may be forward)
        for nm, rest in pending:
            if rest.strip() == 'opaque': self.types[nm] = Ty('s', fs=[])
            else: self.types[nm] = Ty('s', fs=[])
        for nm, rest in pending:
            if rest.strip() == 'opaque': continue
            ty, _ = self.ptype(tokenize(rest), 0)
            self.types[nm].fs = ty.fs; self.types[nm].packed = ty.packed
        gl = {}
        for nm, L in self.globals.items():
            gl[nm] = self._global(L)
        self.globals = gl

    def _global(self, L):
        L = re.sub(r',? ?![a-z]+ ![0-9]+', '', L)
        t = tokenize(L.split(' = ', 1)[1])
        i = 0; g = dict(internal=False, const=False, external=False, align=1, tls=False)
        while t[i] not in ('global', 'constant'):
            if t[i] in ('internal', 'private'): g['internal'] = True
            if t[i] in ('external',): g['external'] = True
            if t[i].startswith('thread_local'): g['tls'] = True
            i += 1
        g['const'] = t[i] == 'constant'
        ty, i = self.ptype(t, i + 1)
        g['ty'] = ty
        if i < len(t) and t[i] != ',' and not g['external']:
            init, i = self.pconst(ty, t, i)
            g['init'] = init
        if 'align' in t[i:]:
            g['align'] = int(t[t.index('align', i) + 1])
        g['align'] = max(g['align'], 1)
        return g

    # constants -> nested python: ints, ('addr', name, off), lists, 'zero', 'undef'
    def pconst(self, ty, t, i):
        k = t[i]
        if k == 'zeroinitializer' or k == 'null': return ('zero',), i + 1
        if k in ('undef', 'poison'): return ('undef',), i + 1
        if k == 'true': return 1, i + 1
        if k == 'false': return 0, i + 1
        if k[0] == '@': return ('addr', k[1:].strip('"'), 0), i + 1
        if k.startswith('c"'):
            b = []; s = k[2:-1]; j = 0
            while j < len(s):
                if s[j] == '\\': b.append(int(s[j + 1:j + 3], 16)); j += 3
                else: b.append(ord(s[j])); j += 1
            return ('list', b), i + 1
        if k == 'splat':
            e, j = self.ptype(t, i + 2); v, j = self.pconst(e, t, j)
            return ('list', [v] * ty.n), j + 1
        if k in ('[', '{', '<'):
            if k == '<' and ty.k == 's': i += 1
            out = []; i += 1
            while t[i] not in (']', '}', '>'):
                e, i = self.ptype(t, i); v, i = self.pconst(e, t, i); out.append(v)
                if t[i] == ',': i += 1
            i += 1
            if k == '<' and ty.k == 's': i += 1
            return ('list', out), i
        if k == 'getelementptr':
            i += 1
            while t[i] in ('inbounds', 'nuw', 'nusw'): i += 1
            i += 1
            sty, i = self.ptype(t, i); i += 1
            idx = []
            while True:
                e, i = self.ptype(t, i); v, i = self.pconst(e, t, i); idx.append((e, v))
                if t[i] == ')': break
                i += 1
            base = idx[0][1]
            off = base[2] if base[0] == 'addr' else 0
            o = self.gep_const(sty, [v if type(v) is int else 0 for e, v in idx[1:]])
            return ('addr', base[1], off + o), i + 1
        if k in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            i += 2
            e, i = self.ptype(t, i); v, i = self.pconst(e, t, i)
            i += 1; e, i = self.ptype(t, i)
            return v, i + 1
        if re.fullmatch(r'-?\d+', k):
            return int(k) & ((1 << ty.w) - 1 if ty.k in ('i', 'p') else -1), i + 1
        if k.startswith('0x'): return int(k, 16), i + 1
        raise IRError('const ' + ' '.join(t[i:i + 6]))

    def gep_const(self, ty, idx):
        off = 0
        for n, v in enumerate(idx):
            if n == 0: off += v * size_of(ty) if v < 1 << 62 else (v - (1 << 64)) * size_of(ty)
            elif ty.k == 's':
                off += field_off(ty, v); ty = ty.fs[v]
            else:
                ty = ty.e; off += v * size_of(ty)
        return off

# ------------------------------------------------------------------ function compile
BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'disjoint', 'nneg', 'inbounds', 'fast', 'nnan'}
PATTR = {'noundef', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'nonnull', 'immarg', 'returned', 'readnone', 'allocptr', 'noreturn', 'inreg'}

class Compiled:
    """compiled function: code[b](M,R) -> int next block | tuple"""
    pass

class FCompiler:
    def __init__(self, mod, f, world, split=False, ub=False):
        self.mod = mod; self.f = f; self.world = world; self.split = split; self.ub = ub

    def skip_attrs(self, t, i):
        while i < len(t):
            if t[i] in PATTR: i += 1
            elif t[i] == 'align' : i += 2
            elif t[i] in ('dereferenceable', 'byval', 'sret', 'align', 'dereferenceable_or_null', 'allocsize', 'elementtype', 'range', 'captures') and i + 1 < len(t) and t[i + 1] == '(':
                d = 0; i += 1
                while True:
                    if t[i] == '(': d += 1
                    if t[i] == ')': d -= 1
                    i += 1
                    if d == 0: break
            else: break
        return i

    def reg(self, name):
        r = self.regs.get(name)
        if r is None:
            r = self.regs[name] = len(self.regs) + 1   # R[0] = return value
        return r

    def operand(self, ty, t, i):
        """returns python expression string, next index"""
        k = t[i]
        if k[0] == '%':
            n = k[1:].strip('"')
            r = self.reg(n); self.cur_uses.add(r)
            return 'R[%d]' % r, i + 1
        v, i = self.mod.pconst(ty, t, i)
        return self.const_expr(ty, v), i

    def const_expr(self, ty, v):
        if type(v) is int: return repr(v)
        if v[0] == 'addr':
            return 'M.gaddr(%r,%r,%d)' % (self.mod.name, v[1], v[2])
        if ty.k == 'v':
            return self.konst(V(ty.e.w, [self._lane(ty.e, x) for x in (v[1] if v[0] == 'list' else [v] * ty.n)]))
        if v[0] == 'zero': return '0'
        if v[0] == 'undef':
            return 'M.undef(%d)' % (ty.w)
        raise IRError('const_expr %r' % (v,))

    def _lane(self, e, x):
        if type(x) is int: return x
        if x[0] == 'undef': return 0     # poison lanes in constant vectors: any value
        if x[0] == 'zero': return 0
        raise IRError('lane %r' % (x,))

    def konst(self, v):
        n = 'K%d' % len(self.konsts)
        self.konsts.append(v)
        return n

    def compile(self):
        f = self.f; text = f.text
        self.regs = {}; self.konsts = []; self.cur_uses = set(); self.rty = {}
        # header
        hd = text[0]
        m = re.search(r'@(?:[-A-Za-z0-9_.$]+|"[^"]*")\((.*)\)', hd)
        t = tokenize(hd[m.start():].split(')', 1)[0] if False else hd[m.start():])
        i = 2; params = []
        while t[i] != ')':
            if t[i] == '...': i += 1; continue
            ty, i = self.mod.ptype(t, i)
            i = self.skip_attrs(t, i)
            params.append((t[i][1:], ty)); i += 1
            if t[i] == ',': i += 1
        for n, ty in params: self.rty[self.reg(n)] = ty
        nparam = len(params)
        # implicit entry label = next number
        blocks = []   # (label, [lines])
        unn = sum(1 for n, _ in params if n.isdigit())
        cur = (str(unn), []); blocks.append(cur)
        for L in text[1:]:
            s = L.split(' ; ')[0] if ' ; ' in L and 'c"' not in L else L
            s = s.rstrip()
            if not s.strip(): continue
            mm = re.match(r'^([-A-Za-z0-9_.$]+|"[^"]*"):', s)
            if mm:
                lab = mm.group(1).strip('"')
                if not cur[1] and len(blocks) == 1: blocks.pop()
                cur = (lab, []); blocks.append(cur)
                continue
            cur[1].append(s.strip())
        # join multi-line switch
        bl2 = []
        for lab, ls in blocks:
            out = []; acc = None
            for s in ls:
                if acc is not None:
                    acc += ' ' + s
                    if s.startswith(']'): out.append(acc); acc = None
                elif s.startswith('switch') and not s.endswith(']'): acc = s
                else: out.append(s)
            bl2.append((lab, out))
        blocks = bl2
        lab2b = {}
        # phis
        self.phis = {}   # label -> list of (reg, ty, [(expr, predlabel)])
        bodies = []
        for lab, ls in blocks:
            ph = []; rest = []
            for s in ls:
                if ' = phi ' in s: ph.append(s)
                else: rest.append(s)
            bodies.append((lab, ph, rest))
        phid = {}
        for lab, ph, rest in bodies:
            lst = []
            for s in ph:
                d, r = s.split(' = phi ', 1)
                tk = tokenize(r); ty, i = self.mod.ptype(tk, 0)
                inc = []
                while i < len(tk) and tk[i] == '[':
                    self.cur_uses = set()
                    e, i = self.operand(ty, tk, i + 1)
                    inc.append((e, tk[i + 1][1:].strip('"'), frozenset(self.cur_uses)))
                    i += 3
                    if i < len(tk) and tk[i] == ',': i += 1
                    if i < len(tk) and tk[i] == '!': break
                rr = self.reg(d.strip()[1:].strip('"')); self.rty[rr] = ty
                lst.append((rr, inc))
            phid[lab] = lst
        self.phid = phid
        # segments
        segs = []      # list of dict(code lines, term)
        lab2seg = {}
        for lab, ph, rest in bodies:
            lab2seg[lab] = len(segs)
            seg = self.newseg(lab); segs.append(seg)
            for s in rest:
                r = self.instr(s, seg, lab)
                if r == 'split' or (self.split and seg['term'] is None):
                    nxt = self.newseg(lab)
                    if r != 'split': seg['term'] = ('jmp', len(segs))
                    else: seg['term'] = ('call',) + seg['callinfo'] + (len(segs),)
                    segs.append(nxt); seg = nxt
        # emit python
        src = []
        edges = []       # (moves)
        def edge(pred, lab):
            mv = []; uses = set()
            for r, inc in phid[lab]:
                for e, pl, us in inc:
                    if pl == pred:
                        mv.append((r, e)); uses |= us; break
                else: raise IRError('phi edge')
            return mv, uses, lab2seg[lab]
        def movecode(mv, ind):
            if not mv: return []
            if len(mv) == 1: return ['%sR[%d]=%s' % (ind, mv[0][0], mv[0][1])]
            return [ind + ','.join('R[%d]' % r for r, e in mv) + '=' + ','.join(e for r, e in mv)]
        succ = []; ulist = []; dlist = []
        for n, seg in enumerate(segs):
            body = list(seg['code']); te = seg['term']; ss = []
            us = seg['uses']; 
            if te is None: raise IRError('no terminator in ' + f.name)
            if te[0] == 'jmp': body.append(' return %d' % te[1]); ss = [(te[1], (), ())]
            elif te[0] == 'call': body.append(' return (%s)' % ','.join(["'c'", te[1], '[' + ','.join(te[2]) + ']', str(te[3]), str(te[4])])); ss = [(te[4], (), (te[3],) if te[3] else ())]
            elif te[0] == 'br':
                mv, u2, s = edge(seg['lab'], te[1]); body += movecode(mv, ' ') + [' return %d' % s]
                ss = [(s, u2, tuple(r for r, _ in mv))]
            elif te[0] == 'ret':
                if te[1] is not None: body.append(' R[0]=%s' % te[1])
                else: body.append(' R[0]=None')
                body.append(' return -1')
            elif te[0] == 'unreach':
                body.append(' M.unreachable(%r)' % f.name); body.append(' return -1')
            elif te[0] == 'cbr':
                mt, ut, st = edge(seg['lab'], te[2]); mf, uf_, sf = edge(seg['lab'], te[3])
                body.append(' c=%s' % te[1])
                body.append(' if c.__class__ is int:')
                body.append('  if c:'); body += movecode(mt, '   ') + ['   return %d' % st]
                body += movecode(mf, '  ') + ['  return %d' % sf]
                et = len(edges); edges.append((mt, st)); ef = len(edges); edges.append((mf, sf))
                body.append(" return ('b',c,%d,%d)" % (et, ef))
                ss = [(st, ut, tuple(r for r, _ in mt)), (sf, uf_, tuple(r for r, _ in mf))]
            elif te[0] == 'switch':
                body.append(' c=%s' % te[1])
                body.append(' if c.__class__ is int:')
                el = []
                for val, lab in te[3]:
                    mv, u2, s = edge(seg['lab'], lab)
                    body.append('  if c==%d:' % val); body += movecode(mv, '   ') + ['   return %d' % s]
                    el.append((val, len(edges))); edges.append((mv, s)); ss.append((s, u2, tuple(r for r, _ in mv)))
                mv, u2, s = edge(seg['lab'], te[2]); body += movecode(mv, '  ') + ['  return %d' % s]
                ed = len(edges); edges.append((mv, s)); ss.append((s, u2, tuple(r for r, _ in mv)))
                body.append(" return ('s',c,%d,%r,%d)" % (te[4], el, ed))
            src.append('def b%d(M,R):' % n)
            src += body
            succ.append(ss); ulist.append(us); dlist.append(seg['defs'])
        for n, (mv, s) in enumerate(edges):
            src.append('def e%d(M,R):' % n); src += movecode(mv, ' ') + [' return %d' % s]
        ns = dict(self.world.ns)
        for n, v in enumerate(self.konsts): ns['K%d' % n] = v
        code = '\n'.join(src)
        exec(compile(code, '<%s>' % f.name, 'exec'), ns)
        c = Compiled()
        c.name = f.name; c.mod = self.mod.name; c.nregs = len(self.regs) + 1; c.nparam = nparam
        c.code = [ns['b%d' % n] for n in range(len(segs))]
        c.edges = [ns['e%d' % n] for n in range(len(edges))]
        c.succ = [[s for s, _, _ in ss] for ss in succ]
        c.ninstr = sum(len(r) for _, _, r in bodies)
        c.seginstr = [len(seg['code']) for seg in segs]
        c._ipd = None; c._live = None; c._linfo = (succ, ulist, dlist)
        c.src = code
        c.ptypes = [ty for n, ty in params]
        c.rty = self.rty
        return c

    def newseg(self, lab):
        return dict(lab=lab, code=[], term=None, uses=set(), defs=set(), callinfo=None)

    def instr(self, s, seg, lab):
        # strip metadata
        s = re.sub(r', !\w+(\.\w+)* !?[-\w{}!() ,]*$', '', s) if ', !' in s else s
        t = tokenize(s)
        dest = None; i = 0
        if t[0][0] == '%' and t[1] == '=':
            dest = self.reg(t[0][1:].strip('"')); i = 2
        op = t[i]; i += 1
        if op in ('tail', 'musttail', 'notail'): op = t[i]; i += 1
        self.cur_uses = set()
        E = seg['code']
        ub = self.ub
        ty0 = self.mod.ptype
        ret = None
        def emit(expr, rt=None):
            E.append(' R[%d]=%s' % (dest, expr))
            if dest not in self.rty: self.rty[dest] = rt
        if op in BIN:
            fl = set()
            while t[i] in FLAGS: fl.add(t[i]); i += 1
            ty, i = ty0(t, i); a, i = self.operand(ty, t, i); b, i = self.operand(ty, t, i + 1)
            self.rty[dest] = ty
            if ty.k == 'v':
                emit("vbin('%s',%d,%s,%s)" % (op, ty.e.w, a, b))
            else:
                w = ty.w
                fn = {'and': 'and_', 'or': 'or_'}.get(op, op)
                if op in ('udiv', 'sdiv', 'urem', 'srem'):
                    emit("M.div('%s',%d,%s,%s,%r)" % (op, w, a, b, self.f.name))
                elif op in ('shl', 'lshr', 'ashr') and not b.lstrip('-').isdigit():
                    emit("M.shift('%s',%d,%s,%s,%r)" % (op, w, a, b, self.f.name))
                else:
                    if ub and 'nsw' in fl and op in ('add', 'sub', 'mul', 'shl'):
                        E.append(" M.nsw('%s',%d,%s,%s,%r)" % (op, w, a, b, self.f.name))
                    emit('%s(%d,%s,%s)' % (fn, w, a, b))
        elif op == 'icmp':
            pr = t[i]; i += 1
            ty, i = ty0(t, i); a, i = self.operand(ty, t, i); b, i = self.operand(ty, t, i + 1)
            self.rty[dest] = Ty('v', 1, ty.n, ity(1)) if ty.k == 'v' else ity(1)
            if ty.k == 'v': emit("vcmp('%s',%d,%s,%s)" % (pr, ty.e.w, a, b))
            else:
                w = ty.w
                d = {'eq': 'eq(%d,%s,%s)' % (w, a, b), 'ne': 'xor(1,eq(%d,%s,%s),1)' % (w, a, b),
                     'ult': 'ult(%d,%s,%s)' % (w, a, b), 'ugt': 'ult(%d,%s,%s)' % (w, b, a),
                     'ule': 'xor(1,ult(%d,%s,%s),1)' % (w, b, a), 'uge': 'xor(1,ult(%d,%s,%s),1)' % (w, a, b),
                     'slt': 'slt(%d,%s,%s)' % (w, a, b), 'sgt': 'slt(%d,%s,%s)' % (w, b, a),
                     'sle': 'xor(1,slt(%d,%s,%s),1)' % (w, b, a), 'sge': 'xor(1,slt(%d,%s,%s),1)' % (w, a, b)}
                emit(d[pr])
        elif op == 'load':
            vol = False
            while t[i] in ('volatile', 'atomic'): vol = True; i += 1
            ty, i = ty0(t, i); p, i2 = self.operand(PTR, t, i + 2)
            al = self._align(t, i2)
            self.rty[dest] = ty
            emit(self.ldexpr(ty, p, al))
        elif op == 'store':
            while t[i] in ('volatile', 'atomic'): i += 1
            ty, i = ty0(t, i); v, i = self.operand(ty, t, i); p, i = self.operand(PTR, t, i + 2)
            al = self._align(t, i)
            if ty.k == 'v':
                E.append(' M.stv(%s,%d,%d,%s,%d)' % (p, ty.e.w, ty.n, v, al))
            else:
                if ty.w % 8: E.append(' M.st(%s,%d,zext(%s,%d,%d),%d)' % (p, size_of(ty), v, ty.w, size_of(ty) * 8, al))
                else: E.append(' M.st(%s,%d,%s,%d)' % (p, size_of(ty), v, al))
        elif op == 'getelementptr':
            while t[i] in FLAGS: i += 1
            sty, i = ty0(t, i); pty, i = ty0(t, i + 1); p, i = self.operand(pty, t, i)
            ty = sty; off = 0; dyn = []; first = True
            while i < len(t) and t[i] == ',':
                if t[i + 1] == '!' or t[i+1].startswith('!'): break
                ity_, i = ty0(t, i + 1); x, i = self.operand(ity_, t, i)
                if first: sz = size_of(ty); first = False
                elif ty.k == 's':
                    k = int(x); off += field_off(ty, k); ty = ty.fs[k]; continue
                else: ty = ty.e; sz = size_of(ty)
                if re.fullmatch(r'\d+', x):
                    k = int(x)
                    if k >= 1 << (ity_.w - 1): k -= 1 << ity_.w
                    off += k * sz
                else: dyn.append((x, ity_.w, sz))
            self.rty[dest] = PTR
            ex = p
            for x, w, sz in dyn:
                xe = x if w == 64 else 'sext(%s,%d,64)' % (x, w)
                ex = 'add(64,%s,%s)' % (ex, xe if sz == 1 else 'mul(64,%s,%d)' % (xe, sz))
            if off or not dyn: ex = 'add(64,%s,%d)' % (ex, off & tm.MASK[64])
            emit(ex)
        elif op in CAST:
            while t[i] in FLAGS: i += 1
            ty, i = ty0(t, i); a, i = self.operand(ty, t, i)
            if op == 'freeze': self.rty[dest] = ty; emit(a)
            else:
                ty2, _ = ty0(t, i + 1)
                self.rty[dest] = ty2
                if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
                    w1 = ty.w; w2 = ty2.w
                    emit(a if w1 == w2 else ('zext(%s,%d,%d)' % (a, w1, w2) if w2 > w1 else 'ext(%s,0,%d)' % (a, w2)))
                elif op == 'bitcast':
                    if ty.k == 'v' and ty2.k == 'v': emit(a)
                    elif ty.k == 'v': emit('v2s(%s,%d)' % (a, ty2.w))
                    elif ty2.k == 'v': emit('V(%d,[%s])' % (ty.w, a))
                    else: emit(a)
                elif ty.k == 'v': emit("vcast('%s',%d,%d,%s)" % (op, ty.e.w, ty2.e.w, a))
                elif op == 'trunc': emit('ext(%s,0,%d)' % (a, ty2.w))
                else: emit('%s(%s,%d,%d)' % (op, a, ty.w, ty2.w))
        elif op == 'alloca':
            ty, i = ty0(t, i); n = '1'
            if i < len(t) and t[i] == ',' and t[i + 1] != 'align':
                nty, i = ty0(t, i + 1); n, i = self.operand(nty, t, i)
            al = self._align(t, i)
            self.rty[dest] = PTR
            emit('M.alloca(%d*(%s),%d,%r)' % (size_of(ty), n, al, self.f.name + '#' + t[0]))
        elif op == 'select':
            cty, i = ty0(t, i); c, i = self.operand(cty, t, i)
            ty, i = ty0(t, i + 1); a, i = self.operand(ty, t, i)
            ty, i = ty0(t, i + 1); b, i = self.operand(ty, t, i)
            self.rty[dest] = ty
            if ty.k == 'v': emit('vselect(%s,%d,%s,%s,%d)' % (c, 1 if cty.k == 'v' else 0, a, b, ty.e.w))
            else: emit('M.sel(%s,%s,%s,%d)' % (c, a, b, ty.w))
        elif op == 'shufflevector':
            ty, i = ty0(t, i); a, i = self.operand(ty, t, i)
            _, i = ty0(t, i + 1); b, i = self.operand(ty, t, i)
            mty, i = ty0(t, i + 1)
            mv, i = self.mod.pconst(mty, t, i)
            ml = [0] * mty.n if mv[0] == 'zero' else [(-1 if type(x) is not int else x) for x in (mv[1] if mv[0] == 'list' else [('undef',)] * mty.n)]
            self.rty[dest] = Ty('v', ty.e.w, mty.n, ty.e)
            emit('vshuf(%d,%d,%s,%s,%s)' % (ty.e.w, ty.n, a, b, self.konst(ml)))
        elif op == 'insertelement':
            ty, i = ty0(t, i); a, i = self.operand(ty, t, i)
            e, i = ty0(t, i + 1); x, i = self.operand(e, t, i)
            it, i = ty0(t, i + 1); n, i = self.operand(it, t, i)
            self.rty[dest] = ty
            emit('vins(%d,%s,%s,%s)' % (ty.e.w, a, x, n))
        elif op == 'extractelement':
            ty, i = ty0(t, i); a, i = self.operand(ty, t, i)
            it, i = ty0(t, i + 1); n, i = self.operand(it, t, i)
            self.rty[dest] = ty.e
            emit('vext(%d,%s,%s)' % (ty.e.w, a, n))
        elif op == 'br':
            if t[i] == 'label': seg['term'] = ('br', t[i + 1][1:].strip('"'))
            else:
                c, i = self.operand(ity(1), t, i + 1)
                seg['term'] = ('cbr', c, t[i + 2][1:].strip('"'), t[i + 5][1:].strip('"'))
        elif op == 'switch':
            ty, i = ty0(t, i); c, i = self.operand(ty, t, i)
            dl = t[i + 2][1:].strip('"'); i += 4; cs = []
            while t[i] != ']':
                e, i = ty0(t, i); v = int(t[i]) & tm.MASK[e.w]; cs.append((v, t[i + 3][1:].strip('"'))); i += 4
            seg['term'] = ('switch', c, dl, cs, ty.w)
        elif op == 'ret':
            ty, i = ty0(t, i)
            if ty.k == 'void': seg['term'] = ('ret', None)
            else:
                a, i = self.operand(ty, t, i); seg['term'] = ('ret', a)
        elif op == 'unreachable':
            seg['term'] = ('unreach',)
        elif op == 'extractvalue':
            ty, i = ty0(t, i); a, i = self.operand(ty, t, i); emit('%s[%d]' % (a, int(t[i + 1])))
        elif op == 'fence': pass
        elif op == 'call':
            while t[i] in ('fastcc', 'ccc') or t[i] in FLAGS: i += 1
            i = self.skip_attrs(t, i)
            rty, i = ty0(t, i)
            if dest is not None: self.rty[dest] = rty
            if t[i] == '(':    # vararg function type
                d = 0
                while True:
                    if t[i] == '(': d += 1
                    if t[i] == ')': d -= 1
                    i += 1
                    if d == 0: break
            if t[i] == 'asm':
                i += 1
                while t[i] in ('sideeffect', 'alignstack', 'inteldialect'): i += 1
                astr = t[i][1:-1]; cons = t[i + 2][1:-1]; i += 3
                args, i = self.callargs(t, i)
                if astr.strip() != '': raise IRError('inline asm %r' % astr)
                if dest is not None:
                    # empty asm: outputs tied to inputs
                    outs = [c for c in cons.split(',') if c.startswith('=')]
                    ins = [c for c in cons.split(',') if not c.startswith('=') and not c.startswith('~')]
                    tied = [k for k, c in enumerate(ins) if c.isdigit()]
                    if len(outs) == 1 and tied: emit(args[tied[0]])
                    else: raise IRError('asm constraints ' + cons)
                # memory-only barrier: nothing
            else:
                callee = t[i]; i += 1
                args, i = self.callargs(t, i)
                self.do_call(callee, args, rty, dest, seg)
                if seg['callinfo'] is not None: ret = 'split'
        else:
            raise IRError('op %s in %s: %s' % (op, self.f.name, s))
        seg['uses'] |= (self.cur_uses - seg['defs'])
        if dest is not None and ret != 'split': seg['defs'].add(dest)
        return ret

    def callargs(self, t, i):
        assert t[i] == '('
        i += 1; args = []
        while t[i] != ')':
            ty, i = self.mod.ptype(t, i)
            i = self.skip_attrs(t, i)
            if ty.k == 'metadata':
                while t[i] not in (',', ')'): i += 1
                args.append('None')
            else:
                a, i = self.operand(ty, t, i); args.append(a)
            if t[i] == ',': i += 1
        return args, i + 1

    def _align(self, t, i):
        for j in range(i, len(t) - 1):
            if t[j] == 'align': return int(t[j + 1])
        return 1

    def ldexpr(self, ty, p, al):
        if ty.k == 'v': return 'M.ldv(%s,%d,%d,%d)' % (p, ty.e.w, ty.n, al)
        if ty.k in ('i', 'p', 'f'):
            if ty.w % 8: return 'ext(M.ld(%s,%d,%d),0,%d)' % (p, size_of(ty), al, ty.w)
            return 'M.ld(%s,%d,%d)' % (p, size_of(ty), al)
        raise IRError('load type')

    def do_call(self, callee, args, rty, dest, seg):
        E = seg['code']
        if callee[0] == '%':
            r = self.reg(callee[1:].strip('"')); self.cur_uses.add(r)
            seg['callinfo'] = ("R[%d]" % r, args, dest or 0)
            return
        name = callee[1:].strip('"')
        if name.startswith('llvm.'):
            if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias')): return
            fn = intrinsic(name)
            if fn is None: raise IRError('intrinsic ' + name)
            ex = '%s(%s)' % (fn, ','.join((['M'] if fn.startswith('M_') else []) + args))
            if fn.startswith('M_'): ex = 'M.%s(%s)' % (fn[2:], ','.join(args))
            if dest is not None: E.append(' R[%d]=%s' % (dest, ex))
            else: E.append(' ' + ex)
            return
        seg['callinfo'] = (repr(name), args, dest or 0)

INTR = {
 'llvm.memcpy': 'M_memcpy', 'llvm.memmove': 'M_memmove', 'llvm.memset': 'M_memset',
 'llvm.ctpop.i32': 'i_ctpop32', 'llvm.ctpop.i64': 'i_ctpop64', 'llvm.ctpop.i16': 'i_ctpop16',
 'llvm.x86.avx2.psrli.w': 'i_psrli16', 'llvm.x86.avx2.psrli.d': 'i_psrli32', 'llvm.x86.avx2.psrli.q': 'i_psrli64',
 'llvm.x86.avx2.pslli.w': 'i_pslli16', 'llvm.x86.avx2.pslli.d': 'i_pslli32', 'llvm.x86.avx2.pslli.q': 'i_pslli64',
 'llvm.x86.avx2.psrai.w': 'i_psrai16', 'llvm.x86.avx2.psrai.d': 'i_psrai32',
 'llvm.x86.sse2.psrli.w': 'i_psrli16', 'llvm.x86.sse2.psrli.d': 'i_psrli32', 'llvm.x86.sse2.psrli.q': 'i_psrli64',
 'llvm.x86.sse2.pslli.w': 'i_pslli16', 'llvm.x86.sse2.pslli.d': 'i_pslli32', 'llvm.x86.sse2.pslli.q': 'i_pslli64',
 'llvm.x86.sse2.psrai.w': 'i_psrai16', 'llvm.x86.sse2.psrai.d': 'i_psrai32',
 'llvm.x86.avx2.pshuf.b': 'i_pshufb', 'llvm.x86.ssse3.pshuf.b.128': 'i_pshufb',
 'llvm.x86.avx2.pmulh.w': 'i_pmulhw', 'llvm.x86.sse2.pmulh.w': 'i_pmulhw',
 'llvm.x86.avx2.pmulhu.w': 'i_pmulhuw', 'llvm.x86.sse2.pmulhu.w': 'i_pmulhuw',
 'llvm.x86.avx2.pmul.hr.sw': 'i_pmulhrsw', 'llvm.x86.ssse3.pmul.hr.sw.128': 'i_pmulhrsw',
 'llvm.x86.avx2.packuswb': 'i_packuswb', 'llvm.x86.avx2.packsswb': 'i_packsswb',
 'llvm.x86.sse2.packuswb.128': 'i_packuswb', 'llvm.x86.sse2.packsswb.128': 'i_packsswb',
 'llvm.x86.avx2.packusdw': 'i_packusdw', 'llvm.x86.avx2.packssdw': 'i_packssdw',
 'llvm.x86.sse41.packusdw': 'i_packusdw', 'llvm.x86.sse2.packssdw.128': 'i_packssdw',
 'llvm.x86.avx2.pmadd.wd': 'i_pmaddwd', 'llvm.x86.sse2.pmadd.wd': 'i_pmaddwd',
 'llvm.x86.avx2.pmadd.ub.sw': 'i_pmaddubsw', 'llvm.x86.ssse3.pmadd.ub.sw.128': 'i_pmaddubsw',
 'llvm.x86.avx2.psllv.d.256': 'i_psllvd', 'llvm.x86.avx2.psrlv.d.256': 'i_psrlvd',
 'llvm.x86.avx2.psllv.q.256': 'i_psllvq', 'llvm.x86.avx2.psrlv.q.256': 'i_psrlvq',
 'llvm.x86.avx2.psllv.d': 'i_psllvd', 'llvm.x86.avx2.psrlv.d': 'i_psrlvd', 'llvm.x86.avx2.psllv.q': 'i_psllvq', 'llvm.x86.avx2.psrlv.q': 'i_psrlvq',
 'llvm.x86.avx2.pmovmskb': 'i_pmovmskb', 'llvm.x86.sse2.pmovmskb.128': 'i_pmovmskb',
 'llvm.x86.avx.movmsk.pd.256': 'i_movmskpd', 'llvm.x86.avx.movmsk.ps.256': 'i_movmskps',
 'llvm.x86.bmi.pext.32': 'i_pext32', 'llvm.x86.bmi.pext.64': 'i_pext64', 'llvm.x86.bmi.pdep.64': 'i_pdep64', 'llvm.x86.bmi.pdep.32': 'i_pdep32',
 'llvm.x86.avx2.gather.q.q.256': 'M_gatherq',
 'llvm.x86.avx.ptestz.256': 'i_ptestz', 'llvm.x86.avx.ptestc.256': 'i_ptestc', 'llvm.x86.sse41.ptestz': 'i_ptestz',
 'llvm.x86.avx2.permd': 'i_permd',
 'llvm.bswap.i64': 'i_bswap64', 'llvm.bswap.i32': 'i_bswap32', 'llvm.bswap.i16': 'i_bswap16',
 'llvm.x86.avx2.pblendvb': 'i_pblendvb', 'llvm.x86.sse41.pblendvb': 'i_pblendvb',
 'llvm.x86.avx.blendv.pd.256': 'i_blendvpd', 'llvm.x86.avx.blendv.ps.256': 'i_blendvps',
 'llvm.x86.avx2.psign.w': 'i_psignw', 'llvm.x86.ssse3.psign.w.128': 'i_psignw', 'llvm.x86.avx2.permps': 'i_permd',
 'llvm.vector.reduce.or': None,
}
def intrinsic(name):
    if name in INTR: return INTR[name]
    for p in ('llvm.memcpy', 'llvm.memmove', 'llvm.memset'):
        if name.startswith(p + '.'): return INTR[p]
    m = re.fullmatch(r'llvm\.(fshl|fshr|smax|smin|umax|umin|abs)\.i(\d+)', name)
    if m: return 'i_%s_%s' % m.groups()
    m = re.fullmatch(r'llvm\.(fshl|fshr|smax|smin|umax|umin|abs|usub\.sat|ssub\.sat|uadd\.sat|sadd\.sat)\.v(\d+)i(\d+)', name)
    if m: return 'v_%s_%s' % (m.group(1).replace('.', ''), m.group(3))
    m = re.fullmatch(r'llvm\.(stacksave|stackrestore)(\.p0)?', name)
    if m: return 'M_' + m.group(1)
    if name.startswith('llvm.va_'): return None
    if name == 'llvm.trap': return 'M_trap'
    if name == 'llvm.x86.sse2.pause' or name.startswith('llvm.prefetch'): return 'M_nop'
    return None

# ------------------------------------------------------------------ CFG utilities
def ipdoms(c):
    """immediate post-dominators per segment (n = virtual exit)"""
    if c._ipd is not None: return c._ipd
    n = len(c.succ); EXIT = n
    succ = [list(s) if s else [EXIT] for s in c.succ] + [[]]
    pred = [[] for _ in range(n + 1)]
    for b, ss in enumerate(succ):
        for s in ss: pred[s].append(b)
    # reverse postorder on reverse graph
    order = []; seen = set()
    st = [(EXIT, iter(pred[EXIT]))]; seen.add(EXIT)
    while st:
        b, it = st[-1]
        for p in it:
            if p not in seen:
                seen.add(p); st.append((p, iter(pred[p]))); break
        else:
            order.append(b); st.pop()
    order.reverse()
    num = {b: i for i, b in enumerate(order)}
    ip = [None] * (n + 1); ip[EXIT] = EXIT
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == EXIT: continue
            new = None
            for s in succ[b]:
                if s in num and ip[s] is not None:
                    if new is None: new = s
                    else:
                        x, y = s, new
                        while x != y:
                            while num[x] > num[y]: x = ip[x]
                            while num[y] > num[x]: y = ip[y]
                        new = x
            if new != ip[b]: ip[b] = new; ch = True
    c._ipd = [EXIT if x is None else x for x in ip]
    return c._ipd

def liveness(c):
    """live-in register sets per segment"""
    if c._live is not None: return c._live
    succ, ul, dl = c._linfo
    n = len(succ)
    live = [set(u) for u in ul]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            out = set()
            for s, us, ds in succ[b]:
                out |= (live[s] - set(ds)) | set(us)
            nl = ul[b] | (out - dl[b])
            if nl != live[b]: live[b] = nl; ch = True
    c._live = [tuple(sorted(x)) for x in live]
    return c._live
