"""Reference interpreter of B, used only to replay a failed proof obligation:
it says what a program should print, or that it should be rejected."""
import sys
sys.setrecursionlimit(20000)
M = (1 << 64) - 1

class Reject(Exception):
    """the program is not a B program"""
class Undef(Exception):
    """the program has no defined result: not usable as a test"""

def sg(x):
    x &= M
    return x - (1 << 64) if x >> 63 else x

LET = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
DIG = set(b'0123456789')
SPC = set(b' \t\n\r\v\f')
KEY = {'return', 'auto', 'extrn', 'if', 'while', 'switch', 'case', 'goto'}
ESC = {ord('0'): 0, ord('e'): 0, ord('('): 123, ord(')'): 125, ord('t'): 9, ord('*'): 42,
       ord("'"): 39, ord('"'): 34, ord('n'): 10, ord('r'): 13}

class Parser:
    def __init__(self, src):
        self.s = src if isinstance(src, bytes) else src.encode('latin1')
        self.p = 0
        self.globals = {}
        self.funcs = {}

    # --- lexical level
    def ch(self):
        return self.s[self.p] if self.p < len(self.s) else -1

    def ws(self):
        while True:
            c = self.ch()
            if c in SPC:
                self.p += 1
            elif self.s[self.p:self.p + 2] == b'/*':
                e = self.s.find(b'*/', self.p + 2)
                if e < 0:
                    raise Reject('comment')
                self.p = e + 2
            else:
                return c

    def name(self):
        self.ws()
        b = self.p
        while self.ch() in LET or self.ch() in DIG or self.ch() == 95:
            self.p += 1
        return self.s[b:self.p].decode('latin1')

    def expect(self, t):
        self.ws()
        if self.ch() != ord(t):
            raise Reject('expected ' + t)
        self.p += 1

    def opt(self, t):
        self.ws()
        t = t.encode()
        if self.s.startswith(t, self.p):
            self.p += len(t)
            return True
        return False

    def number(self):
        self.ws()
        b = self.p
        if self.ch() not in DIG:
            raise Reject('number')
        while self.ch() in DIG:
            self.p += 1
        t = self.s[b:self.p]
        base = 8 if t[0] == 48 else 10
        v = 0
        for c in t:
            v = v * base + c - 48
        return v & M

    def escape(self):
        c = self.ch()
        if c not in ESC:
            raise Reject('escape')
        self.p += 1
        return ESC[c]

    def character(self):   # after the quote
        v = n = 0
        while True:
            c = self.ch()
            if c < 0:
                raise Reject('character')
            self.p += 1
            if c == 39:
                return v
            if n == 8:
                raise Reject('long character')
            if c == 42:
                c = self.escape()
            v = (v << 8 | c) & M
            n += 1

    def string(self):
        out = bytearray()
        while True:
            c = self.ch()
            if c < 0:
                raise Reject('string')
            self.p += 1
            if c == 34:
                return bytes(out)
            if c == 42:
                c = self.escape()
            out.append(c)

    # --- expressions: (node, is lvalue)
    def rv(self, nl):
        n, l = nl
        return ('load', n) if l else n

    def expr(self):
        return self.rv(self.binary(15))

    BIN = [(3, '*'), (3, '/'), (3, '%'), (4, '+'), (4, '-'), (5, '<<'), (5, '>>'), (6, '<='), (6, '>='), (6, '<'), (6, '>'),
           (7, '=='), (7, '!='), (8, '&'), (10, '|')]
    ASG = ['===', '=<<', '=>>', '=<=', '=>=', '=!=', '=<', '=>', '=+', '=-', '=*', '=/', '=%', '=&', '=|', '=']

    def binop(self):
        """the operator that stands here: (level, operator) without taking it"""
        self.ws()
        r = self.s[self.p:self.p + 3].decode('latin1')
        if r[:2] == '==' and r != '===':
            return 7, '=='
        for a in self.ASG:
            if r.startswith(a):
                return 14, a
        if r[:1] == '?':
            return 13, '?'
        if r[:2] in ('<<', '>>'):
            return 5, r[:2]
        if r[:2] in ('<=', '>='):
            return 6, r[:2]
        if r[:2] == '!=':
            return 7, '!='
        if r[:2] in ('++', '--'):
            return None
        for l, o in self.BIN:
            if r[:1] == o:
                return l, o
        if r[:1] == '!':
            raise Reject('!')
        return None

    def binary(self, level):
        left = self.unary()
        while True:
            o = self.binop()
            if not o or o[0] > level:
                return left
            lv, op = o
            self.p += len(op)
            if lv == 14:
                if not left[1]:
                    raise Reject('lvalue')
                r = self.rv(self.binary(14))
                return ('asg', op[1:], left[0], r), False
            if lv == 13:
                c = self.rv(left)
                a = self.rv(self.binary(15))
                self.expect(':')
                b = self.rv(self.binary(13))
                return ('cond', c, a, b), False
            l = self.rv(left)
            left = ('bin', op, l, self.rv(self.binary(lv - 1))), False

    def unary(self):
        c = self.ws()
        if c < 0:
            raise Reject('eof')
        for o in ('--', '++'):
            if self.opt(o):
                n, l = self.unary()
                if not l:
                    raise Reject('lvalue')
                return ('pre', o, n), True
        if self.opt('!'):
            return ('not', self.rv(self.unary())), False
        if self.opt('-'):
            return ('neg', self.rv(self.unary())), False
        if self.opt('*'):
            return ('deref', self.rv(self.unary())), True
        if self.opt('&'):
            n, l = self.unary()
            if not l:
                raise Reject('lvalue')
            return ('addr', n), False
        return self.postfix()

    def postfix(self):
        n = self.primary()
        while True:
            if self.opt('['):
                v = self.rv(n)
                i = self.expr()
                self.expect(']')
                n = ('index', v, i), True
            elif self.opt('('):
                f = self.rv(n)
                a = []
                if not self.opt(')'):
                    while True:
                        a.append(self.expr())
                        if self.opt(')'):
                            break
                        self.expect(',')
                n = ('call', f, a), False
            elif self.opt('++') or self.opt('--'):
                if not n[1]:
                    raise Reject('lvalue')
                n = ('post', self.s[self.p - 2:self.p].decode(), n[0]), False
            else:
                return n

    def primary(self):
        c = self.ws()
        if c == 39:
            self.p += 1
            return ('num', self.character()), False
        if c == 34:
            self.p += 1
            return ('str', self.newstr(self.string())), False
        if c == 40:
            self.p += 1
            n = self.expr()
            self.expect(')')
            return n, False
        if c in DIG:
            return ('num', self.number()), False
        if c in LET:
            n = self.name()
            call = self.ws() == 40
            if n in self.locals:
                return ('local', self.locals[n]), True
            if call and n in self.funcs:
                return ('func', n), False
            if n in self.extrns:
                return ('glob', n), True
            if not call and self.ch() == 61:
                raise Reject('undefined ' + n)
            self.used.add(n)
            return ('func', n), False
        raise Reject('primary')

    def newstr(self, b):
        self.strings.append(b)
        return len(self.strings) - 1

    # --- statements, compiled to a list of instructions
    def emit(self, *a):
        self.code.append(list(a))
        return len(self.code) - 1

    def stmt(self, sw):
        c = self.ws()
        if c < 0:
            raise Reject('eof')
        if c == 123:
            self.p += 1
            while not self.opt('}'):
                self.stmt(sw)
        elif c == 59:
            self.p += 1
        elif c in LET:
            b = self.p
            n = self.name()
            if n in KEY:
                getattr(self, 's_' + n)(sw)
            elif self.opt(':'):
                if n in self.labels:
                    raise Reject('label')
                self.labels[n] = len(self.code)
                self.stmt(sw)
            else:
                self.p = b
                self.sexpr()
        else:
            self.sexpr()

    def sexpr(self):
        e = self.expr()
        self.expect(';')
        self.emit('expr', e)

    def s_return(self, sw):
        if self.opt(';'):
            self.emit('ret', ('num', 0))
            return
        self.expect('(')
        e = self.expr()
        self.expect(')')
        self.expect(';')
        self.emit('ret', e)

    def s_auto(self, sw):
        d = []
        while True:
            n = self.name()
            if n == '' or n in self.locals or n in [x for x, _ in d]:
                raise Reject('auto')
            size = None
            if self.opt('['):
                size = 1
                if not self.opt(']'):
                    if self.ws() == 39:
                        self.p += 1
                        size = self.character()
                    else:
                        size = self.number()
                    self.expect(']')
                    size = size or 1
                if size > 1 << 20:
                    raise Undef('size')
            d.append((n, size))
            if self.opt(';'):
                break
            self.expect(',')
        for n, size in d:
            self.locals[n] = len(self.frame)
            self.frame.append(size)
            self.emit('auto', self.locals[n], size)

    def s_extrn(self, sw):
        while True:
            n = self.name()
            if n == '':
                raise Reject('extrn')
            if n not in self.globals and (n in self.funcs or n in self.used):
                raise Reject('function as variable')
            self.globals.setdefault(n, None)
            self.extrns.add(n)
            if self.opt(';'):
                break
            self.expect(',')

    def s_if(self, sw):
        self.expect('(')
        e = self.expr()
        self.expect(')')
        j = self.emit('brz', e, None)
        self.stmt(sw)
        self.ws()
        b = self.p
        if self.name() == 'else':
            k = self.emit('jmp', None)
            self.code[j][2] = len(self.code)
            self.stmt(sw)
            self.code[k][1] = len(self.code)
        else:
            self.p = b
            self.code[j][2] = len(self.code)

    def s_while(self, sw):
        self.expect('(')
        t = len(self.code)
        e = self.expr()
        self.expect(')')
        j = self.emit('brz', e, None)
        self.stmt(sw)
        self.emit('jmp', t)
        self.code[j][2] = len(self.code)

    def s_switch(self, sw):
        e = self.expr()
        c = {}
        j = self.emit('switch', e, c, None)
        self.stmt(c)
        self.code[j][3] = len(self.code)

    def s_case(self, sw):
        if sw is None:
            raise Reject('case')
        c = self.ws()
        if c == 39:
            self.p += 1
            v = self.character()
        else:
            v = self.number()
        self.expect(':')
        if v in sw:
            raise Reject('duplicate case')
        sw[v] = len(self.code)
        self.stmt(sw)

    def s_goto(self, sw):
        n = self.name()
        if n == '':
            raise Reject('goto')
        self.gotos.append(n)
        self.emit('goto', n)
        self.expect(';')

    # --- external definitions
    def program(self):
        self.used = set()
        self.strings = []
        while True:
            n = self.name()
            if n == '':
                break
            self.locals, self.extrns = {}, set()
            if self.opt('('):
                self.function(n)
            elif self.opt('['):
                size = 0
                if not self.opt(']'):
                    size = self.number()
                    self.expect(']')
                v = [] if self.opt(';') else self.ivals()
                if size > 1 << 20:
                    raise Undef('size')
                self.globals[n] = ('vec', max(size, len(v), 1), v)
            else:
                v = [] if self.opt(';') else self.ivals()
                self.globals[n] = ('words', v or [0])
        if self.ch() >= 0:
            raise Reject('top level')
        # one name for a function and a variable: refused by the backend
        self.clash = bool(set(self.globals) & (self.used | set(self.funcs)))
        return self

    def ivals(self):
        v = []
        while True:
            c = self.ws()
            if c == 39:
                self.p += 1
                v.append(self.character())
            elif c == 34:
                self.p += 1
                v.append(('str', self.newstr(self.string())))
            elif c == 45:
                self.p += 1
                v.append(-self.number() & M)
            else:
                v.append(self.number())
            if self.opt(';'):
                return v
            self.expect(',')

    def function(self, n):
        ps = []
        if not self.opt(')'):
            while True:
                p = self.name()
                if p == '':
                    raise Reject('parameter')
                ps.append(p)
                if self.opt(')'):
                    break
                self.expect(',')
        self.frame = []
        for p in ps:
            self.locals[p] = len(self.frame)
            self.frame.append(None)
        self.code, self.labels, self.gotos = [], {}, []
        self.funcs[n] = None
        self.stmt(None)
        for g in self.gotos:
            if g not in self.labels:
                raise Reject('goto ' + g)
        for i in self.code:
            if i[0] == 'goto':
                i[0], i[1] = 'jmp', self.labels[i[1]]
        self.emit('ret', ('num', 0))
        self.funcs[n] = (len(ps), self.frame, self.code)


class Machine:
    def __init__(self, progs, steps=200000, shift=0):
        self.mem = {}
        self.ro = set()
        self.out = bytearray()
        self.steps = steps
        self.globals, self.funcs = {}, {}
        self.depth = 0
        at = 0x100000 + shift * 4096
        decl = {}
        for p in progs:
            for n, f in p.funcs.items():
                self.funcs[n] = (p, f)
            for n, g in p.globals.items():
                if decl.get(n) is None:
                    decl[n] = (p, g) if g is not None else decl.get(n)
                decl.setdefault(n, None)
        self.stra = {}
        for p in progs:
            for i, b in enumerate(p.strings):
                at += 64
                self.stra[p, i] = at
                for c in b + b'\0':
                    self.mem[at] = c
                    self.ro.add(at)
                    at += 1
                at = (at + 15) & ~7
        for n, d in sorted(decl.items()):
            at += 1024
            self.globals[n] = at
            if d is None:
                self.put(at, 0)
                at += 8
                continue
            p, g = d
            val = lambda v: self.stra[p, v[1]] if isinstance(v, tuple) else v
            if g[0] == 'words':
                for v in g[1]:
                    self.put(at, val(v))
                    at += 8
            else:
                self.put(at, at + 8)
                at += 8
                for i in range(g[1]):
                    self.put(at, val(g[2][i]) if i < len(g[2]) else 0)
                    at += 8
        self.sp = (1 << 40) + shift * 65536
        self.fa = {n: (1 << 50) + (16 + shift) * i + 4096 * shift for i, n in enumerate(sorted(self.funcs))}
        self.af = {a: n for n, a in self.fa.items()}

    def put(self, a, v):
        for i in range(8):
            self.mem[a + i] = v >> 8 * i & 255

    def load(self, a):
        try:
            return sum(self.mem[a + i] << 8 * i for i in range(8))
        except (KeyError, TypeError):
            raise Undef('load')

    def store(self, a, v):
        for i in range(8):
            if a + i not in self.mem or a + i in self.ro:
                raise Undef('store')
            self.mem[a + i] = v >> 8 * i & 255

    def op(self, o, a, b):
        if o in ('+', '++'):
            return a + b & M
        if o in ('-', '--'):
            return a - b & M
        if o == '*':
            return a * b & M
        if o in '/%':
            a, b = sg(a), sg(b)
            if b == 0 or (b == -1 and a == -(1 << 63)):
                raise Undef('division')
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return (q if o == '/' else a - q * b) & M
        if o == '&':
            return a & b
        if o == '|':
            return a | b
        if o == '<<':
            if b > 63:
                raise Undef('shift')
            return a << b & M
        if o == '>>':
            if b > 63:
                raise Undef('shift')
            return sg(a) >> b & M
        a, b = sg(a), sg(b)
        return int({'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[o])

    ASGOP = {'==': '==', '!=': '!=', '<=': '<=', '>=': '>=', '<<': '<<', '>>': '>>'}

    def ev(self, e, fr):
        self.steps -= 1
        if self.steps < 0:
            raise Undef('steps')
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'load':
            return self.load(self.lv(e[1], fr))
        if k == 'str':
            return self.stra[fr[0], e[1]]
        if k == 'bin':
            a = self.ev(e[2], fr)
            return self.op(e[1], a, self.ev(e[3], fr))
        if k == 'not':
            return int(self.ev(e[1], fr) == 0)
        if k == 'neg':
            return -self.ev(e[1], fr) & M
        if k == 'cond':
            return self.ev(e[2] if self.ev(e[1], fr) else e[3], fr)
        if k == 'asg':
            a = self.lv(e[2], fr)
            v = self.ev(e[3], fr)
            if e[1]:
                v = self.op(e[1], self.load(a), v)
            self.store(a, v)
            return v
        if k == 'addr':
            return self.lv(e[1], fr)
        if k == 'post':
            a = self.lv(e[2], fr)
            v = self.load(a)
            self.store(a, self.op(e[1], v, 1))
            return v
        if k == 'func':
            if e[1] not in self.fa:
                raise Undef('address of external function')
            return self.fa[e[1]]
        if k == 'call':
            f = e[1]
            name = f[1] if f[0] == 'func' else None
            if name is None:
                a = self.ev(f, fr)
            args = [self.ev(x, fr) for x in e[2]]
            if name is None:
                name = self.af.get(a)
                if name is None:
                    raise Undef('call')
            return self.call(name, args)
        raise AssertionError(e)

    def lv(self, e, fr):
        k = e[0]
        if k == 'local':
            return fr[1][e[1]]
        if k == 'glob':
            return self.globals[e[1]]
        if k == 'deref':
            return self.ev(e[1], fr)
        if k == 'index':
            a = self.ev(e[1], fr)
            return a + 8 * self.ev(e[2], fr) & M
        if k == 'pre':
            a = self.lv(e[2], fr)
            self.store(a, self.op(e[1], self.load(a), 1))
            return a
        raise AssertionError(e)

    def cstr(self, a):
        b = bytearray()
        while True:
            c = self.mem.get(a)
            if c is None:
                raise Undef('string')
            if c == 0:
                return bytes(b)
            b.append(c)
            a += 1

    def wr(self, v):
        b = v.to_bytes(8, 'big').lstrip(b'\0')
        self.out += b or b'\0'

    def builtin(self, n, a):
        if n == 'write':
            self.wr(a[0])
        elif n == 'printd':
            self.out += str(sg(a[0])).encode()
        elif n == 'char':
            c = self.mem.get(a[0] + a[1] & M)
            if c is None:
                raise Undef('char')
            return c
        elif n == 'printf':
            f, i = self.cstr(a[0]), 1
            p = 0
            while p < len(f):
                c = f[p:p + 2]
                if c in (b'%d', b'%s', b'%c'):
                    if i >= len(a):
                        raise Undef('printf')
                    if c == b'%d':
                        self.out += str(sg(a[i])).encode()
                    elif c == b'%s':
                        self.out += self.cstr(a[i])
                    else:
                        self.wr(a[i])
                    i += 1
                    p += 2
                elif c[:1] == b'%':
                    raise Undef('printf')
                else:
                    self.out += c[:1]
                    p += 1
        else:
            raise Undef('external ' + n)
        return None

    def call(self, name, args):
        if name not in self.funcs:
            return self.builtin(name, args)
        p, (np, frame, code) = self.funcs[name]
        if len(args) < np:
            raise Undef('arguments')
        if self.depth > 200:
            raise Undef('depth')
        self.depth += 1
        sp, addr = self.sp, []
        for i, size in enumerate(frame):
            self.sp -= 4096
            at = self.sp - 8 * (1 if size is None else size + 1)
            self.sp = at
            addr.append(at)
            for b in range(8 * (1 if size is None else size + 1)):
                self.mem[at + b] = None     # not initialised
            if i < np:
                self.put(at, args[i])
        fr = (p, addr)
        pc = 0
        while True:
            self.steps -= 1
            if self.steps < 0:
                raise Undef('steps')
            i = code[pc]
            k = i[0]
            pc += 1
            if k == 'expr':
                self.ev(i[1], fr)
            elif k == 'brz':
                if self.evv(i[1], fr) == 0:
                    pc = i[2]
            elif k == 'jmp':
                pc = i[1]
            elif k == 'ret':
                v = self.evv(i[1], fr)
                break
            elif k == 'auto':
                self.put(addr[i[1]], 0 if i[2] is None else addr[i[1]] + 8)
            elif k == 'switch':
                pc = i[2].get(self.evv(i[1], fr), i[3])
        for a, size in zip(addr, frame):
            for b in range(8 * (1 if size is None else size + 1)):
                self.mem.pop(a + b, None)
        self.sp = sp
        self.depth -= 1
        return v

    def evv(self, e, fr):
        v = self.ev(e, fr)
        if v is None:
            raise Undef('value')
        return v


def run(srcs, steps=200000):
    """output of the program made of these sources; raises Reject or Undef"""
    progs = [Parser(s).program() for s in srcs]
    seen = set()
    for p in progs:
        for n in p.funcs:
            if n in seen or n in p.globals:
                raise Undef('redefined')
            seen.add(n)
    out = None
    for shift in (0, 5):    # the output must not depend on addresses
        m = Machine(progs, steps, shift)
        if 'main' not in m.funcs:
            raise Undef('main')
        try:
            m.call('main', [0] * m.funcs['main'][1][0])
        except (TypeError, RecursionError):
            raise Undef('value')
        if out is not None and out != m.out:
            raise Undef('address')
        out = m.out
    return bytes(out)


if __name__ == '__main__':
    try:
        sys.stdout.buffer.write(run([open(f, 'rb').read() for f in sys.argv[1:]]))
    except (Reject, Undef) as e:
        print(type(e).__name__, e)
        sys.exit(1)
