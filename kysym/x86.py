"""Executes assembled .S files (objdump of the object built from /repo) over symbolic vector lanes."""
import re, os, subprocess
from .terms import *
from .vec import *
from . import vec
from .ir import V
from .exec import Violation, Unsupported
from . import build

G64 = {}
for n, (a, b, c, d) in {'rax': ('eax', 'ax', 'al', None), 'rbx': ('ebx', 'bx', 'bl', None), 'rcx': ('ecx', 'cx', 'cl', None), 'rdx': ('edx', 'dx', 'dl', None),
          'rsi': ('esi', 'si', 'sil', None), 'rdi': ('edi', 'di', 'dil', None), 'rbp': ('ebp', 'bp', 'bpl', None), 'rsp': ('esp', 'sp', 'spl', None)}.items():
    G64[n] = (n, 64); G64[a] = (n, 32); G64[b] = (n, 16); G64[c] = (n, 8)
for i in range(8, 16):
    n = 'r%d' % i
    G64[n] = (n, 64); G64[n + 'd'] = (n, 32); G64[n + 'w'] = (n, 16); G64[n + 'b'] = (n, 8)
PTRSZ = {'BYTE': 1, 'WORD': 2, 'DWORD': 4, 'QWORD': 8, 'XMMWORD': 16, 'YMMWORD': 32}

class AsmModule:
    def __init__(self, path, inc, k):
        out = os.path.join(build.scratch(), 'asm_%s_%d_%d.o' % (os.path.basename(path), k, os.getpid()))
        build.sh(['gcc', '-c', '-DKYBER_K=%d' % k, '-I' + inc, path, '-o', out])
        txt = build.sh(['objdump', '-dr', '-M', 'intel', '--no-show-raw-insn', '-w', out]).decode()
        os.unlink(out)
        self.name = os.path.basename(path)
        self.ins = {}       # addr -> (mnem, ops, next)
        self.functions = {}
        self.reloc = {}
        prev = None
        for L in txt.split('\n'):
            m = re.match(r'^([0-9a-f]+) <([^>]+)>:', L)
            if m:
                self.functions[m.group(2)] = int(m.group(1), 16); continue
            m = re.match(r'^\s+([0-9a-f]+):\s+(\S+)\s*(.*)$', L)
            if not m: continue
            a = int(m.group(1), 16)
            if m.group(2).startswith('R_X86'):
                if prev is not None: self.reloc[prev] = (m.group(2), m.group(3).strip())
                continue
            ops = m.group(3).split('#')[0].strip()
            ops = re.sub(r'<[^>]*>', '', ops).strip()
            if '\tR_X86' in L or ' R_X86' in L:
                mm = re.search(r'(R_X86\S+)\s+(\S+)', L)
                self.reloc[a] = (mm.group(1), mm.group(2))
                ops = re.sub(r'\s*[0-9a-f]*:?\s*R_X86.*', '', ops)
            o = self._split(ops)
            self.ins[a] = [m.group(2), [self._op(x) for x in o], None]
            if prev is not None: self.ins[prev][2] = a
            prev = a
        self.count = 0

    def _split(self, s):
        out = []; d = 0; cur = ''
        for ch in s:
            if ch == '[': d += 1
            if ch == ']': d -= 1
            if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur.strip())
        return out

    def _op(self, s):
        m = re.match(r'^(?:(BYTE|WORD|DWORD|QWORD|XMMWORD|YMMWORD) PTR )?\[(.*)\]$', s)
        if m:
            base = None; idx = None; sc = 1; disp = 0
            e = m.group(2).replace('-', '+-')
            for p in e.split('+'):
                p = p.strip()
                if not p: continue
                if '*' in p:
                    r, k = p.split('*'); idx = r; sc = int(k, 0)
                elif p in G64 or p == 'rip':
                    if base is None: base = p
                    else: idx = p
                else: disp += int(p, 0)
            return ('m', PTRSZ.get(m.group(1), 0), base, idx, sc, disp)
        m = re.match(r'^([xy])mm(\d+)$', s)
        if m: return ('v', int(m.group(2)), 32 if m.group(1) == 'y' else 16)
        if s in G64: return ('r',) + G64[s]
        try: return ('i', int(s, 0))
        except ValueError:
            try: return ('i', int(s, 16))
            except ValueError: return ('?', s)

    # ---------------------------------------------------------------- run
    def run(self, M, name, args):
        R = {}
        order = ['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9']
        for r in ('rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'r8', 'r9', 'r10', 'r11', 'r12', 'r13', 'r14', 'r15'):
            R[r] = fresh('reg_' + r, 64, 4)
        for r, a in zip(order, args): R[r] = a
        stk = M.new_obj(4096, 16, 'asmstack', kind='stack')
        # at function entry rsp is 8 modulo 16
        R['rsp'] = stk.base + 2048 - (stk.base + 2048) % 16 + 8
        sp0 = R['rsp']
        M.st(sp0, 8, 0xdeadbeef)
        saved = {r: R[r] for r in ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15')}
        X = [V(64, [fresh('ymm%d' % i, 64, 4) for _ in range(4)]) for i in range(16)]
        fl = [0, 0, 0, 0]    # zf, sf, cf, of
        pc = self.functions[name]
        calls = []
        n = 0
        while True:
            mn, ops, nx = self.ins[pc]
            n += 1
            if n > 3000000: raise Unsupported('asm step limit')
            if mn == 'ret':
                if calls:
                    ra = M.ld(R['rsp'], 8); R['rsp'] += 8
                    exp = calls.pop()
                    if ra != exp: raise Violation('asm', 'return address clobbered in ' + name)
                    pc = exp; continue
                break
            if mn == 'call':
                if pc in self.reloc:
                    raise Unsupported('asm external call')
                R['rsp'] -= 8; M.st(R['rsp'], 8, nx); calls.append(nx); pc = ops[0][1]; continue
            if mn[0] == 'j':
                t = ops[0][1]
                if mn == 'jmp': pc = t; continue
                zf, sf, cf, of = fl
                if zf is None: raise Unsupported('asm symbolic flags')
                c = {'je': zf, 'jz': zf, 'jne': 1 - zf, 'jnz': 1 - zf, 'jb': cf, 'jc': cf, 'jae': 1 - cf, 'jnc': 1 - cf, 'ja': (1 - cf) & (1 - zf), 'jbe': cf | zf,
                     'js': sf, 'jns': 1 - sf, 'jl': sf ^ of, 'jge': 1 - (sf ^ of), 'jg': (1 - zf) & (1 - (sf ^ of)), 'jle': zf | (sf ^ of)}[mn]
                pc = t if c else nx
                continue
            f = getattr(self, 'op_' + mn, None)
            try:
                if f is not None: f(M, R, X, fl, ops, pc)
                else: self.vecop(M, R, X, mn, ops, pc)
            except Violation as e:
                e.info['asm'] = '%s+%#x: %s' % (name, pc, mn)
                raise
            pc = nx
        M.steps += n; M.instrs += n
        self.count += n
        if R['rsp'] != sp0: raise Violation('asm', 'stack pointer not restored by ' + name)
        for r, v in saved.items():
            if R[r] is not v: raise Violation('asm', 'callee-saved register %s clobbered by %s' % (r, name))
        M.objs.pop(stk.id, None)
        return R['rax']

    def addr(self, M, R, o, pc):
        _, sz, b, i, sc, d = o
        if b == 'rip':
            if pc in self.reloc:
                s = self.reloc[pc][1]
                m = re.match(r'^([^+-]+)([+-]0x[0-9a-f]+)?$', s)
                off = int(m.group(2), 16) if m.group(2) else 0
                return M.gaddr(None, m.group(1), off + 4)
            raise Unsupported('rip relative without relocation')
        a = d & MASK[64]
        if b: a = add(64, a, R[b])
        if i: a = add(64, a, mul(64, R[i], sc))
        return a

    def rd(self, M, R, X, o, pc, nb=None, align=1):
        k = o[0]
        if k == 'v':
            v = X[o[1]]
            if o[2] == 16: return V(v.lw, v.l[:len(v.l) // 2]) if v.lw <= 128 else v
            return v
        if k == 'm':
            a = self.addr(M, R, o, pc)
            n = nb or o[1]
            return M.ldv(a, 64, n // 8, align)
        raise Unsupported('asm operand')

    def wr(self, X, o, v):
        if o[2] == 16:
            z = 128 // v.lw
            v = V(v.lw, list(v.l[:z]) + [0] * z)
        X[o[1]] = v

    # ---- scalar
    def gr(self, M, R, o, pc):
        if o[0] == 'r':
            v = R[o[1]]
            return v if o[2] == 64 else ext(v, 0, o[2])
        if o[0] == 'i': return o[1]
        if o[0] == 'm': return M.ld(self.addr(M, R, o, pc), o[1])
    def gw(self, M, R, o, v, pc):
        if o[0] == 'r':
            if o[2] == 64: R[o[1]] = v if v.__class__ is not int else v & MASK[64]
            elif o[2] == 32: R[o[1]] = zext(v if v.__class__ is not int else v & MASK[32], 32, 64)
            else: R[o[1]] = cat([(v, o[2]), (ext(R[o[1]], o[2], 64 - o[2]), 64 - o[2])])
        else: M.st(self.addr(M, R, o, pc), o[1], v)
    def w_(self, o): return o[2] if o[0] == 'r' else o[1] * 8
    def op_mov(self, M, R, X, fl, ops, pc):
        v = self.gr(M, R, ops[1], pc)
        if v.__class__ is int: v &= MASK[self.w_(ops[0])]
        self.gw(M, R, ops[0], v, pc)
    op_movabs = op_mov
    def op_lea(self, M, R, X, fl, ops, pc):
        self.gw(M, R, ops[0], ext(self.addr(M, R, ops[1], pc), 0, self.w_(ops[0])), pc)
    def _arith(self, M, R, fl, ops, pc, f, wb=True, carry=None):
        w = self.w_(ops[0]); a = self.gr(M, R, ops[0], pc); b = self.gr(M, R, ops[1], pc)
        if b.__class__ is int: b &= MASK[w]
        r = f(w, a, b)
        if r.__class__ is int and a.__class__ is int and b.__class__ is int:
            fl[0] = int(r == 0); fl[1] = (r >> (w - 1)) & 1
            if carry == 'sub':
                fl[2] = int(a < b); fl[3] = int(not -(1 << (w - 1)) <= s_of(a, w) - s_of(b, w) < (1 << (w - 1)))
            elif carry == 'add':
                fl[2] = int(a + b > MASK[w]); fl[3] = int(not -(1 << (w - 1)) <= s_of(a, w) + s_of(b, w) < (1 << (w - 1)))
            else: fl[2] = fl[3] = 0
        else: fl[0] = fl[1] = fl[2] = fl[3] = None
        if wb: self.gw(M, R, ops[0], r, pc)
    def op_add(self, M, R, X, fl, ops, pc): self._arith(M, R, fl, ops, pc, add, True, 'add')
    def op_sub(self, M, R, X, fl, ops, pc): self._arith(M, R, fl, ops, pc, sub, True, 'sub')
    def op_cmp(self, M, R, X, fl, ops, pc): self._arith(M, R, fl, ops, pc, sub, False, 'sub')
    def op_and(self, M, R, X, fl, ops, pc): self._arith(M, R, fl, ops, pc, and_)
    def op_or(self, M, R, X, fl, ops, pc): self._arith(M, R, fl, ops, pc, or_)
    def op_xor(self, M, R, X, fl, ops, pc):
        if ops[0] == ops[1]:
            self.gw(M, R, ops[0], 0, pc); fl[:] = [1, 0, 0, 0]; return
        self._arith(M, R, fl, ops, pc, xor)
    def op_test(self, M, R, X, fl, ops, pc): self._arith(M, R, fl, ops, pc, and_, False)
    def op_inc(self, M, R, X, fl, ops, pc): self._arith(M, R, fl, [ops[0], ('i', 1)], pc, add, True, 'add')
    def op_dec(self, M, R, X, fl, ops, pc): self._arith(M, R, fl, [ops[0], ('i', 1)], pc, sub, True, 'sub')
    def op_shl(self, M, R, X, fl, ops, pc): self._arith(M, R, fl, ops if len(ops) > 1 else [ops[0], ('i', 1)], pc, shl)
    def op_shr(self, M, R, X, fl, ops, pc): self._arith(M, R, fl, ops if len(ops) > 1 else [ops[0], ('i', 1)], pc, lshr)
    def op_push(self, M, R, X, fl, ops, pc):
        R['rsp'] -= 8; M.st(R['rsp'], 8, self.gr(M, R, ops[0], pc))
    def op_pop(self, M, R, X, fl, ops, pc):
        v = M.ld(R['rsp'], 8); R['rsp'] += 8; self.gw(M, R, ops[0], v, pc)
    def op_nop(self, *a): pass
    def op_endbr64(self, *a): pass
    def op_vzeroupper(self, *a): pass
    def op_cs(self, *a): pass
    def op_data16(self, *a): pass
    def op_xchg(self, M, R, X, fl, ops, pc):
        if ops[0] == ops[1]: return
        raise Unsupported('xchg')

    def vecop(self, M, R, X, mn, ops, pc):
        n = None
        d = ops[0]
        if mn in ('vmovdqa', 'vmovdqu', 'vmovaps', 'vmovups', 'vmovapd', 'vmovupd', 'vlddqu', 'vmovntdq', 'vmovntdqa'):
            al = 'a' == mn[-1] and mn != 'vmovdqu' or mn in ('vmovaps', 'vmovapd', 'vmovntdq')
            if d[0] == 'v':
                sz = d[2]
                self.wr(X, d, self.rd(M, R, X, ops[1], pc, sz, sz if al and ops[1][0] == 'm' else 1))
            else:
                sz = ops[1][2]
                v = self.rd(M, R, X, ops[1], pc)
                M.stv(self.addr(M, R, d, pc), v.lw, len(v.l), v, sz if al else 1)
            return
        if mn in ('vpbroadcastq', 'vpbroadcastd', 'vpbroadcastw', 'vpbroadcastb', 'vbroadcasti128'):
            w = {'q': 64, 'd': 32, 'w': 16, 'b': 8}.get(mn[-1], 128)
            if ops[1][0] == 'm':
                v = M.ldv(self.addr(M, R, ops[1], pc), w if w <= 64 else 64, 1 if w <= 64 else 2, 1)
                ls = v.l; lw = v.lw
            else:
                v = self.rd(M, R, X, ops[1], pc)
                if w == 128: ls = relane(v, 64)[:2]; lw = 64
                else: ls = relane(v, w)[:1]; lw = w
            k = d[2] // (len(ls) * lw // 8)
            self.wr(X, d, V(lw, list(ls) * k)); return
        if mn == 'vmovd' or mn == 'vmovq':
            w = 32 if mn == 'vmovd' else 64
            if d[0] == 'v':
                if ops[1][0] == 'v': x = relane(self.rd(M, R, X, ops[1], pc), w)[0]
                else: x = ext(self.gr(M, R, ops[1], pc), 0, w)
                self.wr(X, d, V(w, [x] + [0] * (128 // w - 1)))
            else:
                self.gw(M, R, d, relane(self.rd(M, R, X, ops[1], pc), w)[0], pc)
            return
        sz = d[2] if d[0] == 'v' else 32
        def src(i): return self.rd(M, R, X, ops[i], pc, sz)
        def imm(i): return ops[i][1] & 0xff
        B = {'vpaddw': ('add', 16), 'vpsubw': ('sub', 16), 'vpmullw': ('mul', 16), 'vpaddd': ('add', 32), 'vpsubd': ('sub', 32), 'vpmulld': ('mul', 32),
             'vpaddq': ('add', 64), 'vpsubq': ('sub', 64), 'vpaddb': ('add', 8), 'vpsubb': ('sub', 8),
             'vpand': ('and', 64), 'vpor': ('or', 64), 'vpxor': ('xor', 64), 'vandps': ('and', 64), 'vorps': ('or', 64), 'vxorps': ('xor', 64)}
        if mn in B:
            op, w = B[mn]
            a, b = src(1), src(2)
            if op == 'xor' and ops[1] == ops[2]: r = V(64, [0] * (sz // 8))
            elif op in ('and', 'or', 'xor'):
                w = min(a.lw, b.lw); r = vbin(op, w, a, b)
            else: r = vbin(op, w, a, b)
        elif mn == 'vpandn':
            a, b = src(1), src(2); w = min(a.lw, b.lw)
            r = V(w, [and_(w, not_(w, x), y) for x, y in zip(relane(a, w), relane(b, w))])
        elif mn == 'vpmulhw': r = i_pmulhw(src(1), src(2))
        elif mn == 'vpmulhuw': r = i_pmulhuw(src(1), src(2))
        elif mn == 'vpmulhrsw': r = i_pmulhrsw(src(1), src(2))
        elif mn == 'vpmaddwd': r = i_pmaddwd(src(1), src(2))
        elif mn == 'vpmaddubsw': r = i_pmaddubsw(src(1), src(2))
        elif mn in ('vpsraw', 'vpsrad', 'vpsrlw', 'vpsrld', 'vpsrlq', 'vpsllw', 'vpslld', 'vpsllq'):
            w = {'w': 16, 'd': 32, 'q': 64}[mn[-1]]
            f = {'vpsra': ashrc, 'vpsrl': lshrc, 'vpsll': shlc}[mn[:-1]]
            if ops[2][0] != 'i': raise Unsupported('vector shift by register')
            k = imm(2)
            r = V(w, [f(w, x, k) if k < w or f is ashrc else 0 for x in relane(src(1), w)])
        elif mn in ('vpsllvd', 'vpsrlvd', 'vpsllvq', 'vpsrlvq'):
            r = getattr(vec, 'i_' + mn[1:])(src(1), src(2))
        elif mn == 'vpshufb': r = i_pshufb(src(1), src(2))
        elif mn == 'vpshufd':
            k = imm(2); l = relane(src(1), 32); r = V(32, [l[(i & ~3) + ((k >> (2 * (i & 3))) & 3)] for i in range(len(l))])
        elif mn in ('vpermq', 'vpermpd'):
            k = imm(2); l = relane(src(1), 64); r = V(64, [l[(k >> (2 * i)) & 3] for i in range(4)])
        elif mn == 'vpermd' or mn == 'vpermps':
            ix = relane(src(1), 32); l = relane(src(2), 32); r = V(32, [l[i & 7] for i in ix])
        elif mn == 'vperm2i128' or mn == 'vperm2f128':
            a = src(1); b = src(2); k = imm(3); w = min(a.lw, b.lw)
            la = relane(a, w); lb = relane(b, w); h = len(la) // 2
            parts = [la[:h], la[h:], lb[:h], lb[h:]]; z = [0] * h
            r = V(w, list(z if k & 8 else parts[k & 3]) + list(z if k & 0x80 else parts[(k >> 4) & 3]))
        elif mn == 'vinserti128':
            a = src(1); b = self.rd(M, R, X, ops[2], pc, 16); k = imm(3); w = min(a.lw, b.lw)
            la = list(relane(a, w)); lb = list(relane(b, w)); h = len(la) // 2
            r = V(w, lb[:h] + la[h:] if not k & 1 else la[:h] + lb[:h])
        elif mn == 'vextracti128':
            a = src(1) if ops[1][0] == 'v' else None
            v = X[ops[1][1]]; h = len(v.l) // 2
            r = V(v.lw, v.l[h:] if imm(2) & 1 else v.l[:h])
            if d[0] == 'm':
                M.stv(self.addr(M, R, d, pc), r.lw, len(r.l), r, 1); return
        elif mn == 'vpblendw':
            a, b, k = src(1), src(2), imm(3); la = relane(a, 16); lb = relane(b, 16)
            r = V(16, [lb[i] if (k >> (i & 7)) & 1 else la[i] for i in range(len(la))])
        elif mn in ('vpblendd', 'vblendps'):
            a, b, k = src(1), src(2), imm(3)
            w = 16 if a.lw == 16 and b.lw == 16 else 32
            la = relane(a, w); lb = relane(b, w); g = 32 // w
            r = V(w, [lb[i] if (k >> (i // g)) & 1 else la[i] for i in range(len(la))])
        elif mn == 'vpblendvb':
            a, b, m = relane(src(1), 8), relane(src(2), 8), relane(src(3), 8)
            r = V(8, [ite(ext(z, 7, 1), y, x, 8) for x, y, z in zip(a, b, m)])
        elif mn.startswith('vpunpck'):
            w = {'bw': 8, 'wd': 16, 'dq': 32, 'qdq': 64}[mn[8:]]
            a, b = src(1), src(2)
            lw = min(w, a.lw, b.lw) if a.lw == b.lw and a.lw < w else w
            g = w // lw
            la = relane(a, lw); lb = relane(b, lw); per = 128 // w; out = []
            hi = mn[7] == 'h'
            for L in range(0, sz // 16):
                for i in range(per // 2):
                    j = (L * per + i + (per // 2 if hi else 0)) * g
                    out += la[j:j + g] + lb[j:j + g]
            r = V(lw, out)
        elif mn == 'vmovsldup' or mn == 'vmovshdup':
            a = src(1); w = min(a.lw, 32); g = 32 // w; l = relane(a, w); out = []
            for i in range(0, len(l) // g):
                j = (i & ~1) if mn == 'vmovsldup' else (i | 1)
                out += l[j * g:j * g + g]
            r = V(w, out)
        elif mn in ('vpackuswb', 'vpacksswb', 'vpackusdw', 'vpackssdw'):
            r = getattr(vec, 'i_' + mn[1:])(src(1), src(2))
        elif mn in ('vpcmpgtw', 'vpcmpeqw', 'vpcmpgtb', 'vpcmpeqb', 'vpcmpgtd', 'vpcmpeqd'):
            w = {'w': 16, 'b': 8, 'd': 32}[mn[-1]]
            la = relane(src(1), w); lb = relane(src(2), w)
            r = V(w, [sext(slt(w, y, x) if 'gt' in mn else eq(w, x, y), 1, w) for x, y in zip(la, lb)])
        elif mn in ('vpmaxsw', 'vpminsw'):
            r = getattr(vec, 'v_%s_16' % ('smax' if 'max' in mn else 'smin'))(src(1), src(2))
        elif mn in ('vpalignr',):
            k = imm(3); la = relane(src(1), 8); lb = relane(src(2), 8); out = []
            for o in range(0, sz, 16):
                c = lb[o:o + 16] + la[o:o + 16] + [0] * 16
                out += [c[min(i + k, 47)] for i in range(16)]
            r = V(8, out)
        elif mn in ('vpslldq', 'vpsrldq'):
            k = min(imm(2), 16); l = relane(src(1), 8); out = []
            for o in range(0, sz, 16):
                c = l[o:o + 16]
                out += ([0] * k + c[:16 - k]) if mn == 'vpslldq' else (c[k:] + [0] * k)
            r = V(8, out)
        else:
            raise Unsupported('asm instruction ' + mn)
        self.wr(X, d, r)
