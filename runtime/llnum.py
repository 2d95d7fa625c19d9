#!/usr/bin/env python3-vt
"""Contract verification of b_printd and b_printo on the LLVM IR of the real
source.

clang translates printd.c and printo.c (only the system call is replaced, see
stub.h).  The function is executed symbolically for every word; calls of the
other runtime functions are replaced by their contracts (write, writeb, nwrite:
C28, C29), functions of the same file are executed.  Division and remainder by
powers of ten are the mathematical functions div10 and mod10, with the facts
about them instantiated for the terms that occur; everything else is 64-bit
machine arithmetic.  Every path must end (a numeral has at most 22 digits, so
there are finitely many, and no path is cut off), every memory access must lie
inside its object, and at the end the bytes written must be the shortest numeral.
"""
import re, sys, subprocess, time, json
import z3
from llcut import WID, Unsupported
sys.setrecursionlimit(200000)

B64 = z3.BitVecSort(64)
Q = z3.Function('div10', B64, B64)
RS = {}
def Rk(k):
    if k not in RS:
        RS[k] = z3.Function('mod10^%d' % k, B64, B64)
    return RS[k]
def C(v, w=64):
    return z3.BitVecVal(v, w)
def lit(v):
    return v.as_long() if z3.is_bv_value(v) else None
def log10(v):
    k = 0
    while v > 1 and v % 10 == 0:
        v, k = v // 10, k + 1
    return k if v == 1 and k > 0 else None

class Failed(Exception):
    pass

class St:
    def __init__(s):
        s.path, s.mem, s.out, s.ax, s.next, s.size = [], {}, [], {}, 1 << 20, {}
    def copy(s):
        n = St()
        n.path, n.mem, n.out, n.ax, n.next, n.size = list(s.path), dict(s.mem), list(s.out), dict(s.ax), s.next, dict(s.size)
        return n

def functions(text):
    fs = {}
    for m in re.finditer(r'^define [^\n]*?@"?([\w.]+)"?\((.*?)\)[^\n]*\{\n(.*?)^\}', text, re.S | re.M):
        params = [(a.split()[0], a.split()[-1]) for a in m.group(2).split(',') if '%' in a]
        blocks, cur, first = {}, 'entry.0', None
        body = re.sub(r'\[\n(.*?)\n\s*\]', lambda k: '[' + k.group(1).replace('\n', ' ') + ']', m.group(3), flags=re.S)
        for line in body.split('\n'):
            line = re.sub(r'\s*;.*$', '', line)
            line = re.sub(r'(, ?![\w.]+ ![\w.]+)+$', '', line)
            k = re.match(r'^"?([\w.]+)"?:', line)
            if k:
                cur = k.group(1)
            elif line.strip():
                first = first or cur
                blocks.setdefault(cur, []).append(line.strip())
        fs[m.group(1)] = (params, blocks, first)
    return fs

class Exec:
    def __init__(self, text, base):
        self.fs = functions(text)
        self.base = base
        self.text = text
        self.n = z3.BitVec('n', 64)
        self.F = z3.BitVec('fout', 64)
        self.obl, self.queries, self.secs, self.paths, self.steps = 0, 0, 0.0, 0, 0
        self.deadline = time.time() + 150
        self.logs = max([1] + [len(x) for x in re.findall(r'\b\d\d+\b', ''.join(re.findall(r'^define.*?^\}', text, re.S | re.M))) if len(x) < 21 and '@b.' in text])
        self.consts = {}
        self.cex = None
        self.gaddr = {}
        at = 1 << 16
        for m in re.finditer(r'^@"?([\w.]+)"? = .*constant \[(\d+) x i8\] (c"((?:[^"\\]|\\..)*)"|zeroinitializer)', text, re.M):
            if m.group(4) is None:
                b = bytes(int(m.group(2)))
            else:
                b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda k: bytes([int(k.group(1), 16)]), m.group(4).encode())
            self.gaddr[m.group(1)] = at
            self.consts[at] = b
            at += 4096
        self.foutaddr = 1 << 12
        self.gaddr['b.fout'] = self.foutaddr

    # ------------------------------------------------------------- solver
    def solve(self, st, extra):
        if time.time() > self.deadline:
            raise Unsupported('out of time')
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', 20000)
        for a in st.ax.values():
            s.add(*a)
        s.add(*st.path)
        s.add(*extra)
        t = time.time()
        r = s.check()
        self.secs += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            raise Unsupported('solver gave up')
        return r == z3.sat
    def feasible(self, st):
        return self.solve(st, [])
    def entails(self, st, g):
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        # what needs no path condition
        q = z3.SolverFor('QF_UFBV')
        q.set('timeout', 3000)
        seen, todo = set(), [g]
        while todo:
            t = todo.pop()
            if t.get_id() not in seen:
                seen.add(t.get_id())
                if t.get_id() in st.ax and t.decl().name() != 'div10':
                    q.add(*st.ax[t.get_id()])
                todo += t.children()
        q.add(z3.Not(g))
        t = time.time()
        r = q.check()
        self.secs += time.time() - t
        self.queries += 1
        if r == z3.unsat or not self.solve(st, [z3.Not(g)]):
            return True
        self.cex = (st, g)
        return False
    def input(self):
        """an argument for which the last obligation fails, with exact division"""
        if self.cex is None:
            return []
        st, g = self.cex
        s = z3.SolverFor('QF_UFBV')
        s.set('timeout', 20000)
        seen, todo = set(), [g] + list(st.path)
        while todo:
            t = todo.pop()
            if t.get_id() not in seen:
                seen.add(t.get_id())
                nm = t.decl().name() if z3.is_app(t) else ''
                if nm == 'div10':
                    s.add(z3.ULE(t, C((1 << 64) // 10)), z3.ULT(t.arg(0) - t * 10, 10))
                if nm == 'mod10^1':
                    s.add(t == t.arg(0) - Q(t.arg(0)) * 10)
                    s.add(z3.ULE(Q(t.arg(0)), C((1 << 64) // 10)), z3.ULT(t, 10))
                todo += t.children()
        for a in st.ax.values():
            s.add(*a)
        s.add(*st.path)
        s.add(z3.Not(g))
        if s.check() != z3.sat:
            return []
        v = s.model().eval(self.n, model_completion=True).as_long()
        return [v - (1 << 64) if v >> 63 else v]
    def require(self, st, what, g):
        self.obl += 1
        if not self.entails(st, g):
            raise Failed(what + ' [after writing %d bytes]' % len(st.out))
    def fork(self, st, c, yes, no):
        c = z3.simplify(c)
        if z3.is_true(c):
            return yes(st)
        if z3.is_false(c):
            return no(st)
        a, b = st.copy(), st.copy()
        a.path.append(c)
        b.path.append(z3.Not(c))
        fa = self.feasible(a)
        if fa:
            if not self.feasible(b):
                return yes(a)
            yes(a)
        no(b)

    # ----------------------------------------------------- division by ten
    def div10(self, st, x, k):
        x = z3.simplify(x)
        v = lit(x)
        if v is not None:
            return C(v // 10 ** k)
        for _ in range(k):
            if z3.is_app(x) and x.decl().name().startswith('mod10^'):
                j = int(x.decl().name()[6:])
                x = self.mod10(st, self.div10(st, x.arg(0), 1), j - 1) if j > 1 else C(0)
                if lit(x) is not None:
                    return x
                continue
            q = Q(x)
            if q.get_id() not in st.ax:
                root, i = q, 0
                while z3.is_app(root) and root.decl().name() == 'div10':
                    root, i = root.arg(0), i + 1
                a = [z3.ULT(q, 1 << 61)]
                for j in range(0, 21 - i):
                    if j > self.logs:
                        break
                    if i + j < 20:
                        a.append(z3.ULT(q, 10 ** j) == z3.ULT(root, 10 ** (i + j)))
                    elif j < 20:
                        a.append(z3.ULT(q, 10 ** j))
                st.ax[q.get_id()] = a
                self.keep.append(q)
            x = q
        return x
    def mod10(self, st, x, k):
        x = z3.simplify(x)
        v = lit(x)
        if v is not None:
            return C(v % 10 ** k)
        if z3.is_app(x) and x.decl().name().startswith('mod10^'):
            if int(x.decl().name()[6:]) <= k:
                return x
            x = x.arg(0)
        r = Rk(k)(x)
        if r.get_id() not in st.ax:
            st.ax[r.get_id()] = [z3.ULT(r, 10 ** k), z3.Implies(z3.ULT(x, 10 ** k), r == x)]
            self.keep.append(r)
        return r
    keep = []

    # ------------------------------------------------------------ operands
    def val(self, st, regs, ty, s):
        s = re.sub(r'^((noundef|nonnull|signext|zeroext|nocapture|readonly|writeonly|noalias|returned|immarg|align \d+|dereferenceable\(\d+\)|captures\([^)]*\)|initializes\(\([^)]*\)\)|range\([^)]*\)) )+', '', s.strip())
        if s.startswith('%'):
            return regs[s]
        if s.startswith('@'):
            nm = s[1:].strip('"')
            if nm in self.gaddr:
                return C(self.gaddr[nm])
            raise Unsupported('global ' + s)
        m = re.match(r'getelementptr (?:inbounds |nuw |nusw )*\((.*)\)$', s)
        if m:
            return self.gep(st, regs, m.group(1))
        w = WID.get(ty)
        if w is None:
            raise Unsupported('type ' + ty)
        if s in ('true', 'false'):
            return C(1 if s == 'true' else 0, 1)
        if s in ('null', 'zeroinitializer'):
            return C(0)
        if re.match(r'^-?\d+$', s):
            return C(int(s), w)
        raise Unsupported('operand ' + s)
    def split(self, s):
        out, depth, cur = [], 0, ''
        for ch in s:
            depth += (ch in '([{') - (ch in ')]}')
            if ch == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += ch
        if cur.strip():
            out.append(cur.strip())
        return out
    def gep(self, st, regs, s):
        ps = self.split(s)
        ty = ps[0]
        b = self.val(st, regs, 'ptr', ps[1].split(' ', 1)[1])
        idx = []
        for p in ps[2:]:
            t, v = p.split(' ', 1)
            i = self.val(st, regs, t, v)
            idx.append(z3.SignExt(64 - i.size(), i) if i.size() < 64 else i)
        m = re.match(r'\[(\d+) x (\w+)\]', ty)
        if m:
            w = WID[m.group(2)] // 8
            r = b + idx[0] * (w * int(m.group(1)))
            for i in idx[1:]:
                r = r + i * w
        else:
            r = b + idx[0] * (WID[ty] // 8)
        return z3.simplify(r)

    # -------------------------------------------------------------- memory
    def obj(self, st, a, n, what):
        for b, sz in st.size.items():
            if b <= a and a + n <= b + sz:
                return
        raise Failed(what + ': outside every object')
    def bytes_at(self, st, a, n):
        for b, data in self.consts.items():
            if b <= a and a + n <= b + len(data):
                return [C(x, 8) for x in data[a - b:a - b + n]]
        self.obj(st, a, n, 'C26.memory: read')
        out = []
        for k in range(n):
            if a + k not in st.mem:
                raise Failed('C26.memory: uninitialised byte read')
            out.append(st.mem[a + k])
        return out
    def load(self, st, ty, p):
        w = WID[ty] // 8 or 1
        a = lit(p)
        if a is None:
            for b, data in self.consts.items():  # a table
                off = z3.simplify(p - b)
                if w == 1 and self.entails(st, z3.ULT(off, len(data))):
                    self.obl += 1
                    v = C(data[-1], 8)
                    for k in range(len(data) - 1):
                        v = z3.If(off == k, C(data[k], 8), v)
                    return v
            raise Unsupported('load from a computed address')
        if a == self.foutaddr and w == 8:
            return self.F
        bs = self.bytes_at(st, a, w)
        v = bs[0] if w == 1 else z3.Concat(*reversed(bs))
        return z3.simplify(v if v.size() == WID[ty] else z3.Extract(WID[ty] - 1, 0, v))
    def store(self, st, v, p):
        a = lit(p)
        if a is None:
            raise Unsupported('store to a computed address')
        if v.size() < 8:
            v = z3.ZeroExt(8 - v.size(), v)
        n = v.size() // 8
        self.obj(st, a, n, 'C26.memory: write')
        self.obl += 1
        for k in range(n):
            st.mem[a + k] = z3.simplify(z3.Extract(8 * k + 7, 8 * k, v))

    # --------------------------------------------------------------- calls
    def wide(self, v):
        return z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
    def output(self, st, fd, buf, cnt):
        self.require(st, 'C26.output.file: writes go to the selected output', self.wide(fd) == self.F + 1)
        a, n = lit(z3.simplify(buf)), lit(z3.simplify(self.wide(cnt)))
        if a is None or n is None:
            raise Unsupported('output of a computed range')
        if n > 4096:
            raise Failed('C26.output.size: numeral has a sane length')
        self.obl += 1
        st.out += self.bytes_at(st, a, n) if n else []
    def call(self, st, f, a, k):
        if f == 'b.nwrite' and len(a) == 3:
            self.output(st, a[0], a[1], a[2])
            return k(st, self.any())
        if f == 'verif_syscall' and len(a) == 4:
            self.require(st, 'C26.output.call: only writes', self.wide(a[0]) == 1)
            self.output(st, a[1], a[2], a[3])
            return k(st, self.any())
        if f == 'b.writeb' and len(a) == 1:
            st.out.append(z3.simplify(z3.Extract(7, 0, a[0])))
            return k(st, None)
        if f == 'b.write' and len(a) == 1:
            for n in range(1, 9):
                if n == 8 or self.entails(st, z3.ULT(a[0], 1 << (8 * n))):
                    if n > 1 and not self.entails(st, z3.UGE(a[0], 1 << (8 * n - 8))):
                        raise Unsupported('write of characters of unknown number')
                    for j in reversed(range(n)):
                        st.out.append(z3.simplify(z3.Extract(8 * j + 7, 8 * j, a[0])))
                    return k(st, None)
        if f in ('b.printd', 'b.printo') and len(a) == 1:
            # by contract of the other function: not needed so far
            if f not in self.fs:
                raise Unsupported('call of ' + f)
        if f in self.fs:
            ps, blocks, first = self.fs[f]
            if len(ps) != len(a):
                raise Unsupported('arguments of ' + f)
            return self.run(st, f, {p[1]: v for p, v in zip(ps, a)}, first, None, k)
        m = re.match(r'llvm\.(\w+)', f)
        if m:
            nm = m.group(1)
            if nm in ('lifetime', 'dbg', 'assume', 'experimental'):
                return k(st, None)
            if nm == 'abs':
                if self.entails(st, a[0] <= 0):
                    return k(st, z3.simplify(-a[0]))
                return self.fork(st, a[0] < 0, lambda s: k(s, z3.simplify(-a[0])), lambda s: k(s, a[0]))
            if nm in ('umin', 'umax', 'smin', 'smax'):
                c = {'umin': z3.ULE, 'umax': z3.UGE, 'smin': lambda x, y: x <= y, 'smax': lambda x, y: x >= y}[nm](a[0], a[1])
                return self.fork(st, c, lambda s: k(s, a[0]), lambda s: k(s, a[1]))
            if nm in ('usub',) and '.sat.' in f:
                return self.fork(st, z3.UGE(a[0], a[1]), lambda s: k(s, z3.simplify(a[0] - a[1])), lambda s: k(s, C(0, a[0].size())))
            if nm == 'memset':
                p, n = lit(z3.simplify(a[0])), lit(z3.simplify(a[2]))
                if p is not None and n is not None:
                    for j in range(n):
                        self.store(st, a[1], C(p + j))
                    return k(st, None)
            if nm in ('memcpy', 'memmove'):
                d, p, n = (lit(z3.simplify(x)) for x in a[:3])
                if None not in (d, p, n):
                    for j, b in enumerate(self.bytes_at(st, p, n)):
                        self.store(st, b, C(d + j))
                    return k(st, None)
        raise Unsupported('call of ' + f)
    cnt = 0
    def any(self):
        Exec.cnt += 1
        return z3.BitVec('any!%d' % Exec.cnt, 64)

    # ----------------------------------------------------------- execution
    def run(self, st, f, regs, b, frm, k):
        self.steps += 1
        if self.steps > 60000:
            raise Failed('C26.end: the function does not end')
        blocks = self.fs[f][1]
        new = {}
        for i in blocks[b]:
            m = re.match(r'(%[\w.]+) = phi (\w+) (.*)$', i)
            if not m:
                break
            for v, l in re.findall(r'\[ ?([^,\]]+|getelementptr[^\]]*\)), %([\w.]+) ?\]', m.group(3)):
                if l == frm:
                    new[m.group(1)] = self.val(st, regs, m.group(2), v)
                    break
            else:
                raise Unsupported('phi')
        regs = dict(regs)
        regs.update(new)
        self.step(st, f, regs, b, len(new), k)

    def step(self, st, f, regs, b, at, k):
        ins = self.fs[f][1][b]
        while at < len(ins):
            i = ins[at]
            at += 1
            m = re.match(r'(%[\w.]+) = (.*)$', i)
            dst, r = (m.group(1), m.group(2)) if m else (None, i)
            r = re.sub(r'^(tail |notail |musttail )', '', r)
            op = r.split()[0]
            def go(v, n=at):
                def cont(s, val=None):
                    rg = dict(regs)
                    if dst:
                        rg[dst] = val if v is None else v
                    self.step(s, f, rg, b, n, k)
                return cont
            if op == 'call':
                m = re.match(r'call .*?@"?([\w.]+)"?\((.*)\)(?: #\d+)?$', r)
                if not m:
                    raise Unsupported(r)
                if m.group(1).startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental')):
                    continue
                a = [self.val(st, regs, x.split()[0], x.split(' ', 1)[1]) for x in self.split(m.group(2))]
                return self.call(st, m.group(1), a, go(None))
            if op == 'store':
                ps = self.split(r[len('store '):])
                t, v = ps[0].split(' ', 1)
                p = ps[1].split(' ', 1)[1]
                self.store(st, self.val(st, regs, t, v), z3.simplify(self.val(st, regs, 'ptr', p)))
                continue
            if op == 'ret':
                t = r.split()
                return k(st, None if t[1] == 'void' else self.val(st, regs, t[1], r.split(' ', 2)[2]))
            if op == 'br':
                m = re.match(r'br i1 ([^,]+), label %([\w.]+), label %([\w.]+)', r)
                if not m:
                    return self.run(st, f, regs, re.match(r'br label %([\w.]+)', r).group(1), b, k)
                c = self.val(st, regs, 'i1', m.group(1)) == 1
                return self.fork(st, c, lambda s: self.run(s, f, regs, m.group(2), b, k), lambda s: self.run(s, f, regs, m.group(3), b, k))
            if op == 'switch':
                m = re.match(r'switch (\w+) ([^,]+), label %([\w.]+) \[(.*)\]', r)
                v = self.val(st, regs, m.group(1), m.group(2))
                cs = re.findall(r'\w+ (-?\d+), label %([\w.]+)', m.group(4))
                def sw(s, j):
                    if j == len(cs):
                        return self.run(s, f, regs, m.group(3), b, k)
                    self.fork(s, v == C(int(cs[j][0]), v.size()), lambda q: self.run(q, f, regs, cs[j][1], b, k), lambda q: sw(q, j + 1))
                return sw(st, 0)
            if op == 'unreachable':
                raise Failed('C26.unreachable: undefined behaviour is reached')
            if op == 'select':
                ps = self.split(r[len('select '):])
                c = self.val(st, regs, 'i1', ps[0].split(' ', 1)[1]) == 1
                x, y = (self.val(st, regs, p.split(' ', 1)[0], p.split(' ', 1)[1]) for p in ps[1:])
                return self.fork(st, c, go(x), go(y))
            if op in ('sdiv', 'srem'):
                m = re.match(r'\w+(?: exact)? (\w+) ([^,]+), (.+)$', r)
                x, y = self.val(st, regs, m.group(1), m.group(2)), self.val(st, regs, m.group(1), m.group(3))
                e = log10(lit(z3.simplify(y)) or 0)
                if e is not None and x.size() == 64:
                    fn = self.div10 if op == 'sdiv' else self.mod10
                    neg, pos = st.copy(), st.copy()
                    def after(s, v, n=at):
                        rg = dict(regs)
                        rg[dst] = z3.simplify(v)
                        self.step(s, f, rg, b, n, k)
                    return self.fork(st, x < 0, lambda s: after(s, -fn(s, -x, e)), lambda s: after(s, fn(s, x, e)))
            regs[dst] = z3.simplify(self.expr(st, regs, r, op))
        raise Unsupported('block without an end')

    def expr(self, st, regs, r, op):
        if op == 'alloca':
            m = re.match(r'alloca (?:\[(\d+) x (\w+)\]|(\w+))', r)
            n = int(m.group(1) or 1) * (WID[m.group(2) or m.group(3)] // 8 or 1)
            a = st.next
            st.next += (n + 4095) // 4096 * 4096 + 4096
            st.size[a] = n
            return C(a)
        if op == 'getelementptr':
            return self.gep(st, regs, re.match(r'getelementptr (?:inbounds |nuw |nusw )*(.*)$', r).group(1))
        if op == 'load':
            ps = self.split(re.sub(r'^load (volatile )?', '', r))
            return self.load(st, ps[0], z3.simplify(self.val(st, regs, 'ptr', ps[1].split(' ', 1)[1])))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'freeze'):
            m = re.match(r'\w+(?: nneg| nuw| nsw)* (\w+) (\S+)(?: to (\w+))?', r)
            v = self.val(st, regs, m.group(1), m.group(2))
            if op == 'freeze':
                return v
            w, n = v.size(), WID[m.group(3)]
            if n <= w:
                return z3.Extract(n - 1, 0, v)
            return z3.SignExt(n - w, v) if op == 'sext' else z3.ZeroExt(n - w, v)
        if op == 'icmp':
            m = re.match(r'icmp (?:samesign )?(\w+) (\w+) ([^,]+), (.+)$', r)
            a, b = self.val(st, regs, m.group(2), m.group(3)), self.val(st, regs, m.group(2), m.group(4))
            P = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b,
                 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}
            return z3.If(P[m.group(1)](), C(1, 1), C(0, 1))
        BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b,
               'shl': lambda a, b: a << b, 'lshr': z3.LShR, 'ashr': lambda a, b: a >> b, 'mul': None, 'xor': None, 'udiv': None, 'urem': None}
        if op not in BIN:
            raise Unsupported(r)
        m = re.match(r'\w+(?: nuw| nsw| exact| disjoint)* (\w+) ([^,]+), (.+)$', r)
        a, b = self.val(st, regs, m.group(1), m.group(2)), self.val(st, regs, m.group(1), m.group(3))
        lb = lit(z3.simplify(b))
        if op == 'xor':
            return -a - 1 if lb == (1 << b.size()) - 1 else a ^ b
        if op == 'mul':
            if lb is not None and a.size() == 64 and z3.is_app(a) and a.decl().name() == 'div10':
                x = a.arg(0)
                t = x - self.mod10(st, x, 1)   # 10 * (x / 10)
                if lb == 10:
                    return t
                if lb == (1 << 64) - 10:
                    return -t
                if lb % 10 == 0:
                    return t * (lb // 10)
                if lb % 256 == 246:   # only the low byte is used
                    return a * (lb + 10) - t
            return a * b
        if op in ('udiv', 'urem'):
            if lb == 0:
                raise Failed('C26.division: by zero')
            e = log10(lb or 0)
            if e is not None:
                w = a.size()
                v = (self.div10 if op == 'udiv' else self.mod10)(st, self.wide(a), e)
                return z3.Extract(w - 1, 0, v)
            if lb is None:
                raise Unsupported('division by a computed value')
            return z3.UDiv(a, b) if op == 'udiv' else z3.URem(a, b)
        return BIN[op](a, b)

    # ------------------------------------------------------------ contract
    def done(self, st, _=None):
        self.paths += 1
        if self.base == 10:
            for neg in (True, False):
                s = st.copy()
                s.path.append(self.n < 0 if neg else self.n >= 0)
                if self.feasible(s):
                    self.numeral(s, neg)
        else:
            self.numeral(st, False)
    def numeral(self, st, neg):
        out = list(st.out)
        m = z3.simplify(-self.n) if neg else self.n
        if neg:
            if not out:
                raise Failed('C26.length: nothing is written')
            self.require(st, 'C26.sign: a negative number starts with -', out.pop(0) == ord('-'))
        k = len(out)
        if k == 0:
            raise Failed('C26.length: no digit is written')
        if self.base ** k < (1 << 64):
            self.require(st, 'C26.length: as many digits as the numeral has', z3.ULT(m, self.base ** k))
        if k > 1:
            if self.base ** (k - 1) >= 1 << 64:
                raise Failed('C26.length: more digits than any numeral has')
            self.require(st, 'C26.length: no leading zero', z3.UGE(m, self.base ** (k - 1)))
        for j in range(k):
            if self.base == 10:
                d = self.mod10(st, self.div10(st, m, j), 1)
            else:
                d = z3.LShR(m, 3 * j) & 7
            self.require(st, 'C26.digits: the digits are those of the numeral', z3.simplify(z3.Extract(7, 0, d)) + 48 == out[k - 1 - j])
    def verify(self, f):
        ps, _, first = self.fs[f]
        st = St()
        self.run(st, f, {ps[0][1]: self.n}, first, None, self.done)
        if self.paths == 0:
            raise Unsupported('no path ends')
        return dict(obligations=self.obl, paths=self.paths, queries=self.queries, solver_s=round(self.secs, 2))

def main(src):
    res = {}
    for f, base in (('printd', 10), ('printo', 8)):
        ll = subprocess.run(['clang', '-O1', '-S', '-emit-llvm', '-ffreestanding', '-fno-discard-value-names', '-fno-vectorize',
                             '-fno-slp-vectorize', '-fno-unroll-loops', '-w', '-Dlinux',
                             '-include', 'stub.h', '-I.', '-I' + src, '-o', '-', src + '/' + f + '.c'],
                            capture_output=True, text=True, cwd=sys.path[0])
        if ll.returncode != 0:
            res[f] = dict(error='does not compile: ' + ll.stderr[-500:])
            continue
        e = Exec(ll.stdout, base)
        try:
            res[f] = e.verify('b.' + f)
        except Unsupported as x:
            res[f] = dict(error='outside the verifier: %s' % x)
        except Failed as x:
            res[f] = dict(failed=str(x), obligations=e.obl, inputs=e.input())
        except (KeyError, IndexError, AttributeError, z3.Z3Exception, RecursionError) as x:
            res[f] = dict(error='outside the verifier: %r' % x)
    print(json.dumps(res))

if __name__ == '__main__':
    main(sys.argv[1])
