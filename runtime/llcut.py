#!/usr/bin/env python3-vt
"""Contract verification of b_printf on the LLVM IR of the real source.

clang translates /repo/runtime/printf.c (only the system call and the va_arg
macros are replaced, see va.h); every loop header is a cut point whose
invariant relates the program's values to the ghost state of the specification
(a monitor that walks the format and says which write, printd or printo call
must come next); calls are replaced by the contracts of the callees.  All
obligations range over every format, string and argument, with 64-bit machine
arithmetic.  Invariants are found by dropping candidates that are not inductive
(Houdini); the events and the return are then checked with what remains.
"""
import re, sys, subprocess, time, json
import z3

BV = lambda n: z3.BitVec(n, 64)
C64 = lambda v: z3.BitVecVal(v, 64)

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- IR parsing
def parse(text, name):
    m = re.search(r'^define [^\n]*@"?' + re.escape(name) + r'"?\((.*?)\)[^\n]*\{\n(.*?)^\}', text, re.S | re.M)
    if not m:
        raise Unsupported('function %s not found' % name)
    params = re.findall(r'(?:i64|ptr|i32)[^,%]* (%[\w.]+)', m.group(1))
    blocks, order, cur = {}, [], None
    body = m.group(2)
    body = re.sub(r'\[\n(.*?)\n\s*\]', lambda k: '[' + k.group(1).replace('\n', ' ') + ']', body, flags=re.S)
    for line in body.split('\n'):
        line = re.sub(r'\s*;.*$', '', line)
        line = re.sub(r'(, ?![\w.]+ ![\w.]+)+$', '', line)
        if not line.strip():
            continue
        k = re.match(r'^"?([\w.]+)"?:', line)
        if k:
            cur = k.group(1)
            blocks[cur] = []
            order.append(cur)
            continue
        if cur is None:
            cur = 'entry.0'
            blocks[cur] = []
            order.append(cur)
        blocks[cur].append(line.strip())
    return params, blocks, order

def succs(ins):
    t = ins[-1]
    return re.findall(r'label %([\w.]+)', t)

def dominators(blocks, order):
    pred = {b: [] for b in order}
    for b in order:
        for s in succs(blocks[b]):
            pred[s].append(b)
    dom = {b: set(order) for b in order}
    dom[order[0]] = {order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p] for p in pred[b]]
            n = (set.intersection(*ps) if ps else set()) | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    return dom, pred

WID = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'ptr': 64}

class St:
    def __init__(self, regs, g, path):
        self.regs, self.g, self.path = regs, g, path
    def copy(self):
        return St(dict(self.regs), dict(self.g), list(self.path))

class Verifier:
    def __init__(self, text, name):
        self.params, self.blocks, self.order = parse(text, name)
        self.dom, self.pred = dominators(self.blocks, self.order)
        self.heads = [b for b in self.order if any(b in self.dom[p] for p in self.pred[b])]
        for b in self.order:   # irreducible flow?
            for s in succs(self.blocks[b]):
                if self.order.index(s) <= self.order.index(b) and s not in self.heads:
                    self.heads.append(s)
        self.M = z3.Array('M', z3.BitVecSort(64), z3.BitVecSort(8))
        self.A = z3.Function('arg', z3.BitVecSort(64), z3.BitVecSort(64))
        self.FMT = BV('fmt')
        self.obl = []          # (name, path, goal)
        self.n = 0
        self.types = {}
        for b in self.order:
            for i in self.blocks[b]:
                m = re.match(r'(%[\w.]+) = (.*)', i)
                if m:
                    self.types[m.group(1)] = self.restype(m.group(2))
        self.deadline = time.time() + 300
        self.queries = 0
        self.solver_s = 0.0

    def restype(self, r):
        r = re.sub(r'^(tail |notail |musttail )', '', r)
        op = r.split()[0]
        if op == 'icmp':
            return 'i1'
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            return r.split(' to ')[1].split()[0]
        if op == 'getelementptr':
            return 'ptr'
        if op == 'load':
            return re.match(r'load (?:volatile )?(\w+)', r).group(1)
        m = re.search(r'\b(i1|i8|i16|i32|i64|ptr)\b', r[len(op):])
        return m.group(1) if m else 'void'

    # ghost state: mode pos sb sp argi x
    N, S, D, O, C, O2 = range(6)
    def ghost0(self):
        z = C64(0)
        return dict(mode=z, pos=z, sb=z, sp=z, argi=z, x=z)
    def at(self, p):
        return z3.Select(self.M, p)
    def norm(self, g):
        done = z3.And(g['mode'] == self.S, self.at(g['sb'] + g['sp']) == 0)
        h = dict(g)
        h['mode'] = z3.If(done, C64(self.N), g['mode'])
        h['pos'] = z3.If(done, g['pos'] + 2, g['pos'])
        return h
    def directive(self, g):
        return self.at(self.FMT + g['pos']), self.at(self.FMT + g['pos'] + 1)
    def require(self, st, name, goal):
        self.obl.append((name, list(st.path), goal))
        st.path.append(goal)

    def ev_read(self, st, p):
        g = st.g
        h = self.norm(g)
        c, n = self.directive(g)
        c1, n1 = self.directive(h)
        F = self.FMT
        isS = g['mode'] == self.S
        ok = z3.Or(p == F + g['pos'], z3.And(c != 0, p == F + g['pos'] + 1),
                   z3.And(c == ord('%'), n != 0, p == F + g['pos'] + 2),
                   p == F + h['pos'], z3.And(c1 != 0, p == F + h['pos'] + 1),
                   z3.And(isS, z3.Or(p == g['sb'] + g['sp'],
                                     z3.And(self.at(g['sb'] + g['sp']) != 0, p == g['sb'] + g['sp'] + 1))))
        self.require(st, 'C27.read: nothing behind the zero byte of the format or of a string is read', ok)
        return self.at(p)

    def ev_arg(self, st):
        g = self.norm(st.g)
        c, n = self.directive(g)
        isd = [n == ord(k) for k in 'docs']
        self.require(st, 'C27.argument: an argument is taken exactly for a conversion',
                     z3.And(g['mode'] == self.N, c == ord('%'), z3.Or(*isd)))
        x = self.A(g['argi'])
        g['argi'] = g['argi'] + 1
        g['x'] = x
        g['mode'] = z3.If(isd[0], C64(self.D), z3.If(isd[1], C64(self.O), z3.If(isd[2], C64(self.C), C64(self.S))))
        g['sb'] = z3.If(isd[3], x, g['sb'])
        g['sp'] = z3.If(isd[3], C64(0), g['sp'])
        st.g = g
        return x

    def ev_write(self, st, w, byte=False):
        g = self.norm(st.g)
        c, n = self.directive(g)
        ze = lambda b: z3.ZeroExt(56, b)
        if byte:
            w = ze(z3.Extract(7, 0, w))
        m = g['mode']
        sc = self.at(g['sb'] + g['sp'])
        plain = z3.And(c != 0, c != ord('%'), w == ze(c))
        pct = z3.And(c == ord('%'), w == ord('%'), z3.And(*[n != ord(k) for k in 'docs']))
        ok = z3.Or(z3.And(m == self.S, w == ze(sc)),
                   z3.And(m == self.C, w == g['x']),
                   z3.And(m == self.O, g['x'] < 0, w == ord('-')),
                   z3.And(m == self.N, z3.Or(plain, pct)))
        self.require(st, 'C27.write: the characters written are those the format prescribes', ok)
        h = dict(g)
        h['sp'] = z3.If(m == self.S, g['sp'] + 1, g['sp'])
        h['mode'] = z3.If(m == self.C, C64(self.N), z3.If(m == self.O, C64(self.O2), m))
        h['pos'] = z3.If(m == self.C, g['pos'] + 2,
                         z3.If(m == self.N, z3.If(z3.And(c == ord('%'), n == ord('%')), g['pos'] + 2, g['pos'] + 1), g['pos']))
        st.g = h

    def ev_num(self, st, w, octal):
        g = self.norm(st.g)
        m = g['mode']
        if octal:
            ok = z3.Or(z3.And(m == self.O, g['x'] >= 0, w == g['x']), z3.And(m == self.O2, w == -g['x']))
        else:
            ok = z3.And(m == self.D, w == g['x'])
        self.require(st, 'C27.number: the numeral written is the one the format prescribes', ok)
        h = dict(g)
        h['mode'] = C64(self.N)
        h['pos'] = g['pos'] + 2
        st.g = h

    def ev_ret(self, st):
        g = self.norm(st.g)
        self.require(st, 'C27.end: output ends exactly at the end of the format',
                     z3.And(g['mode'] == self.N, self.at(self.FMT + g['pos']) == 0))

    # ------------------------------------------------------------ execution
    def val(self, st, ty, s):
        s = re.sub(r'^(noundef|nonnull|signext|zeroext|range\([^)]*\)) ', '', s.strip())
        if s.startswith('%'):
            if s not in st.regs:
                raise Unsupported('value ' + s)
            return st.regs[s]
        w = WID.get(ty)
        if w is None:
            raise Unsupported('type ' + ty)
        if s in ('true', 'false'):
            return z3.BitVecVal(1 if s == 'true' else 0, 1)
        if s == 'null':
            return z3.BitVecVal(0, 64)
        if re.match(r'^-?\d+$', s):
            return z3.BitVecVal(int(s), w)
        raise Unsupported('operand ' + s)

    def args(self, st, s):
        out, depth, cur = [], 0, ''
        for ch in s:
            if ch == '(':
                depth += 1
            if ch == ')':
                depth -= 1
            if ch == ',' and depth == 0:
                out.append(cur)
                cur = ''
            else:
                cur += ch
        if cur.strip():
            out.append(cur)
        res = []
        for a in out:
            a = a.strip()
            ty = a.split()[0]
            v = self.val(st, ty, a.split()[-1])
            res.append(z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v)
        return res

    def expr(self, st, r):
        r = re.sub(r'^(tail |notail |musttail )', '', r)
        op = r.split()[0]
        BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
               'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
               'shl': lambda a, b: a << b, 'lshr': z3.LShR, 'ashr': lambda a, b: a >> b,
               'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda a, b: a / b, 'srem': z3.SRem}
        if op in BIN:
            m = re.match(r'\w+(?: nuw| nsw| exact| disjoint)* (\w+) ([^,]+), (.+)$', r)
            return BIN[op](self.val(st, m.group(1), m.group(2)), self.val(st, m.group(1), m.group(3)))
        if op == 'icmp':
            m = re.match(r'icmp (?:samesign )?(\w+) (\w+) ([^,]+), (.+)$', r)
            a, b = self.val(st, m.group(2), m.group(3)), self.val(st, m.group(2), m.group(4))
            P = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b,
                 'sgt': lambda: a > b, 'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
                 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}
            return z3.If(P[m.group(1)](), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'freeze'):
            m = re.match(r'\w+(?: nneg| nuw| nsw)* (\w+) (\S+)(?: to (\w+))?', r)
            v = self.val(st, m.group(1), m.group(2))
            if op == 'freeze':
                return v
            w, n = v.size(), WID[m.group(3)]
            if n < w:
                return z3.Extract(n - 1, 0, v)
            if n == w:
                return v
            return z3.SignExt(n - w, v) if op == 'sext' else z3.ZeroExt(n - w, v)
        if op == 'select':
            m = re.match(r'select i1 ([^,]+), (\w+) ([^,]+), (\w+) (.+)$', r)
            return z3.If(self.val(st, 'i1', m.group(1)) == 1, self.val(st, m.group(2), m.group(3)), self.val(st, m.group(4), m.group(5)))
        if op == 'getelementptr':
            m = re.match(r'getelementptr (?:inbounds |nuw |nusw )*(\w+), ptr ([^,]+), (\w+) (.+)$', r)
            if not m:
                raise Unsupported(r)
            b, i = self.val(st, 'ptr', m.group(2)), self.val(st, m.group(3), m.group(4))
            if i.size() < 64:
                i = z3.SignExt(64 - i.size(), i)
            return b + i * (WID[m.group(1)] // 8)
        if op == 'load':
            m = re.match(r'load (?:volatile )?i8, ptr ([^,]+)', r)
            if not m:
                raise Unsupported(r)
            return self.ev_read(st, self.val(st, 'ptr', m.group(1)))
        if op == 'call':
            m = re.match(r'call .*?@"?([\w.]+)"?\((.*)\)(?: #\d+)?$', r)
            if not m:
                raise Unsupported(r)
            f = m.group(1)
            if f.startswith('llvm.lifetime') or f.startswith('llvm.va_') or f.startswith('llvm.dbg'):
                return None
            a = self.args(st, m.group(2))
            if f == 'b.char' and len(a) == 2:
                return z3.ZeroExt(56, self.ev_read(st, a[0] + a[1]))
            if f == 'verif_va_arg':
                return self.ev_arg(st)
            if f == 'b.write' and len(a) == 1:
                return self.ev_write(st, a[0])
            if f == 'b.writeb' and len(a) == 1:
                return self.ev_write(st, a[0], True)
            if f == 'b.printd' and len(a) == 1:
                return self.ev_num(st, a[0], False)
            if f == 'b.printo' and len(a) == 1:
                return self.ev_num(st, a[0], True)
            raise Unsupported('call of ' + f)
        raise Unsupported(r)

    def feasible(self, path):
        return self.sat(path) != z3.unsat
    def sat(self, fs):
        if time.time() > self.deadline:
            raise Unsupported('out of time')
        s = z3.SolverFor('QF_AUFBV')
        s.set('timeout', 20000)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        self.model = s.model() if r == z3.sat else None
        return r

    def phis(self, st, b, frm):
        new = {}
        for i in self.blocks[b]:
            m = re.match(r'(%[\w.]+) = phi (\w+) (.*)$', i)
            if not m:
                break
            for v, l in re.findall(r'\[ ?([^,\]]+), %([\w.]+) ?\]', m.group(3)):
                if l == frm:
                    new[m.group(1)] = self.val(st, m.group(2), v)
                    break
            else:
                raise Unsupported('phi')
        st.regs.update(new)

    def run(self, st, b, frm, sink, first=True):
        """executes from block b until a cut point or return"""
        self.steps += 1
        if self.steps > 4000:
            raise Unsupported('too many paths')
        if frm is not None:
            self.phis(st, b, frm)
        if b in self.heads and not first:
            sink(st, b)
            return
        for i in self.blocks[b]:
            m = re.match(r'(%[\w.]+) = (.*)$', i)
            if m:
                if m.group(2).startswith('phi '):
                    continue
                st.regs[m.group(1)] = self.expr(st, m.group(2))
                continue
            r = re.sub(r'^(tail |notail |musttail )', '', i)
            op = r.split()[0]
            if op == 'call':
                self.expr(st, r)
            elif op == 'ret':
                self.ev_ret(st)
                return
            elif op == 'br':
                m = re.match(r'br i1 ([^,]+), label %([\w.]+), label %([\w.]+)', r)
                if not m:
                    self.run(st, re.match(r'br label %([\w.]+)', r).group(1), b, sink, False)
                    return
                c = self.val(st, 'i1', m.group(1)) == 1
                for cond, to in ((c, m.group(2)), (z3.Not(c), m.group(3))):
                    n = st.copy()
                    n.path.append(cond)
                    if self.feasible(n.path):
                        self.run(n, to, b, sink, False)
                return
            elif op == 'switch':
                m = re.match(r'switch (\w+) ([^,]+), label %([\w.]+) \[(.*)\]', r)
                v = self.val(st, m.group(1), m.group(2))
                conds = []
                for k, to in re.findall(r'\w+ (-?\d+), label %([\w.]+)', m.group(4)):
                    c = v == z3.BitVecVal(int(k), v.size())
                    conds.append(z3.Not(c))
                    n = st.copy()
                    n.path.append(c)
                    if self.feasible(n.path):
                        self.run(n, to, b, sink, False)
                st.path += conds
                if self.feasible(st.path):
                    self.run(st, m.group(3), b, sink, False)
                return
            elif op == 'unreachable':
                self.require(st, 'C27.unreachable: undefined behaviour is not reached', z3.BoolVal(False))
                return
            else:
                raise Unsupported(i)

    # ------------------------------------------------------------ invariants
    def avail(self, h):
        out = []
        for d in self.dom[h]:
            for i in self.blocks[d]:
                m = re.match(r'(%[\w.]+) = (.*)$', i)
                if m and (d != h or m.group(2).startswith('phi ')) and self.types[m.group(1)] in WID:
                    out.append(m.group(1))
        return sorted(out)

    def cands(self, h):
        cs = []
        g_ = self.norm
        for md in range(6):
            cs.append(('mode=%d' % md, lambda st, md=md: g_(st.g)['mode'] == md))
        cs.append(('mode=raw', lambda st: st.g['mode'] == g_(st.g)['mode']))
        cs.append(('mode raw=S', lambda st: st.g['mode'] == self.S))
        ge = lambda st: self.at(st.g['sb'] + st.g['sp'])
        cs.append(('schar!=0', lambda st: ge(st) != 0))
        cs.append(('dir=%', lambda st: self.at(self.FMT + g_(st.g)['pos']) == ord('%')))
        for k in 'docs':
            cs.append(('dir=%' + k, lambda st, k=k: self.at(self.FMT + g_(st.g)['pos'] + 1) == ord(k)))
        vs = [v for v in self.avail(h)] + [p for p in self.params]
        for v in vs:
            ty = self.types.get(v, 'i64')
            w = WID[ty]
            R = lambda st, v=v: st.regs[v]
            if w == 64:
                for d in (-2, -1, 0, 1, 2):
                    cs.append(('%s=pos%+d' % (v, d), lambda st, R=R, d=d: R(st) == g_(st.g)['pos'] + d))
                    cs.append(('%s=fmt+pos%+d' % (v, d), lambda st, R=R, d=d: R(st) == self.FMT + g_(st.g)['pos'] + d))
                    cs.append(('%s=rawpos%+d' % (v, d), lambda st, R=R, d=d: R(st) == st.g['pos'] + d))
                    cs.append(('%s=sp%+d' % (v, d), lambda st, R=R, d=d: R(st) == st.g['sp'] + d))
                    cs.append(('%s=sb+sp%+d' % (v, d), lambda st, R=R, d=d: R(st) == st.g['sb'] + st.g['sp'] + d))
                cs.append(('%s=sb' % v, lambda st, R=R: R(st) == st.g['sb']))
                cs.append(('%s=x' % v, lambda st, R=R: R(st) == st.g['x']))
                cs.append(('%s=-x' % v, lambda st, R=R: R(st) == -st.g['x']))
                cs.append(('%s=fmt' % v, lambda st, R=R: R(st) == self.FMT))
            if w >= 8:
                z = (lambda b, w=w: z3.ZeroExt(w - 8, b) if w > 8 else b)
                for nm, f in (('M[pos]', lambda st: self.at(self.FMT + g_(st.g)['pos'])),
                              ('M[pos+1]', lambda st: self.at(self.FMT + g_(st.g)['pos'] + 1)),
                              ('M[s]', ge)):
                    cs.append(('%s=%s' % (v, nm), lambda st, R=R, f=f, z=z: R(st) == z(f(st))))
            for k in (0, 1, 37):
                if k < (1 << w):
                    cs.append(('%s=%d' % (v, k), lambda st, R=R, k=k: R(st) == k))
                    cs.append(('%s!=%d' % (v, k), lambda st, R=R, k=k: R(st) != k))
        return cs

    def fresh(self, h):
        st = St({}, {}, [])
        for v in self.avail(h):
            st.regs[v] = z3.BitVec(h + '!' + v, WID[self.types[v]])
        for p in self.params:
            st.regs[p] = self.FMT
        for k in self.ghost0():
            st.g[k] = BV('g!%s!%s' % (h, k))
        return st

    def verify(self):
        if len(self.params) < 1:
            raise Unsupported('parameters')
        inv = {h: self.cands(h) for h in self.heads}
        total = sum(len(c) for c in inv.values())
        entry = self.order[0]
        it = 0
        while True:
            it += 1
            changed = False
            self.obl, self.steps = [], 0
            def sink(st, h):
                nonlocal changed
                # drop what does not hold here
                while True:
                    cs = inv[h]
                    fs = [c[1](st) for c in cs]
                    r = self.sat(st.path + [z3.Not(z3.And(*fs))]) if fs else z3.unsat
                    if r == z3.unsat:
                        break
                    if r == z3.unknown:
                        raise Unsupported('solver gave up')
                    m = self.model
                    keep = [c for c, f in zip(cs, fs) if z3.is_true(m.eval(f, model_completion=True))]
                    if len(keep) == len(cs):
                        raise Unsupported('model')
                    inv[h] = keep
                    changed = True
            st = St({p: self.FMT for p in self.params}, self.ghost0(), [])
            if entry in self.heads:
                raise Unsupported('loop at entry')
            self.run(st, entry, None, sink)
            for h in self.heads:
                st = self.fresh(h)
                st.path = [c[1](st) for c in inv[h]]
                self.run(st, h, None, sink)
            if not changed:
                break
        # events with the invariants found
        failed, n = [], 0
        for name, path, goal in self.obl:
            n += 1
            r = self.sat(path + [z3.Not(goal)])
            if r != z3.unsat:
                failed.append((name, 'counterexample' if r == z3.sat else 'unknown',
                               str(self.model)[:2000] if r == z3.sat else ''))
        # preservation of the invariants (already established) counts once per candidate kept
        kept = sum(len(c) for c in inv.values())
        # vacuity: every loop header is reachable under its invariant
        for h in self.heads:
            st = self.fresh(h)
            if self.sat([c[1](st) for c in inv[h]]) != z3.sat:
                raise Unsupported('invariant of %s is contradictory' % h)
        return dict(obligations=n + kept, events=n, invariants=kept, candidates=total, failed=failed,
                    iterations=it, queries=self.queries, solver_s=round(self.solver_s, 2),
                    inv={h: [c[0] for c in inv[h]] for h in self.heads})

def main(src):
    ll = subprocess.run(['clang', '-O1', '-S', '-emit-llvm', '-ffreestanding', '-fno-discard-value-names', '-fno-vectorize',
                         '-fno-slp-vectorize', '-fno-unroll-loops', '-mllvm', '-inline-threshold=100000', '-w', '-Dlinux',
                         '-include', 'va.h', '-I.', '-I' + src, '-o', '-', src + '/printf.c'],
                        capture_output=True, text=True, cwd=sys.path[0])
    if ll.returncode != 0:
        print(json.dumps(dict(error='does not compile: ' + ll.stderr[-500:])))
        return
    try:
        print(json.dumps(Verifier(ll.stdout, 'b.printf').verify()))
    except Unsupported as e:
        print(json.dumps(dict(error='outside the verifier: %s' % e)))

if __name__ == '__main__':
    main(sys.argv[1])
