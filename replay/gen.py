"""Random B programs for the replay of failed obligations."""
import random

PRE = '''g0 5; g1 -7; v[4] 3, 1, 4, 1; gm 11, 22, 33;
tr(x) { printf("t%d ", x); return(x); }
add(x, y) return(x+y);
three(x, y, z) { return(x*100+y*10+z); }
five(k, l, m, n, o) { k = k*2; return((((k*7+l)*7+m)*7+n)*7+o); }
seven(k, l, m, n, o, p, q) return(k-2*l+3*m-4*n+5*o-6*p+7*q);
zero() return(77);
self(x) { extrn fp; if (x) fp = add; else fp = three; return(fp); }
fp;
'''
SET = 'extrn g0,g1,v,gm,fp; auto a,b,c,d,p,f,w[4]; a= %s; b= %s; c= %s; d= %s; g0=6; g1= -3; v[0]=2; v[1]=7; v[2]=1; v[3]=8; w[0]=4; w[1]= -9; w[2]=3; w[3]=0; gm=12; p= &%s; f=add; fp=three;'
SHOW = 'printf("|%d %d %d %d %d %d %d %d %d ", a, b, c, d, g0, g1, gm, *p, p==&a); printf("%d %d %d %d %d %d %d %d*n", v[0], v[1], v[2], v[3], w[0], w[1], w[2], w[3]);'
CONSTS = ['0', '1', '2', '3', '5', '7', '8', '10', '63', '64', '100', '255', '256', '017', '0777', '65535', '2147483647', '2147483648',
          '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '18446744073709551615', "'a'", "'ab'", "'*n'", '12345678901234']
SMALL = ['0', '1', '2', '3', '4', '5', '7', '13', '62', '63']
BIN = ['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '|']
ASG = ['=', '=+', '=-', '=*', '=/', '=%', '=&', '=|', '=<<', '=>>', '=<', '=>', '=<=', '=>=', '=!=', '===']

class Gen:
    def __init__(self, seed, **kw):
        self.r = random.Random(seed)
        self.o = dict(paren=.25, asg=.15, call=.15, mem=.2, cond=.1, un=.2, tr=.2, big=.4, space=.5)
        self.o.update(kw)

    def p(self, k):
        return self.r.random() < self.o[k]

    def sp(self):
        r = self.r.random()
        if r > self.o['space']:
            return ''
        return self.r.choice([' ', ' ', ' ', '\t', '\n', '  ', '/**/', '/* x */', ' /* * / ** */ ', '\n\n', '\r\n', '/*/*/', '/***/'])

    def join(self, toks):
        out = ''
        for t in toks:
            if not t:
                continue
            s = self.sp()
            if not s and out:
                a, b = out[-1], t[0]
                if (a.isalnum() or a == '_') and (b.isalnum() or b == '_'):
                    s = ' '
                elif a in '+-*/%<>=!&|' and b in '+-*/%<>=!&|' and self.r.random() < .8:
                    s = ' '
            out += s + t
        return out

    def const(self):
        return self.r.choice(CONSTS if self.p('big') else SMALL)

    def lval(self, d):
        r = self.r
        if not self.p('mem'):
            return [r.choice(['a', 'b', 'c', 'd', 'g0', 'g1', 'gm'])]
        k = r.randrange(6)
        if k == 0:
            return ['*', 'p']
        if k == 1:
            return ['v', '['] + self.index(d) + [']']
        if k == 2:
            return ['w', '['] + self.index(d) + [']']
        if k == 3:
            return ['*', '(', r.choice(['v', 'w']), '+', r.choice(['0', '8', '16', '24']), ')']
        if k == 4:
            return ['*', '&', r.choice(['a', 'b', 'g0'])]
        return ['p', '[', '0', ']']

    def index(self, d):
        r = self.r
        k = r.randrange(5)
        if k < 3 or d <= 0:
            return [r.choice('0123')]
        if k == 3:
            return self.expr(d - 1) + ['&', '3']
        return ['(', *self.expr(d - 1), ')', '&', '3']

    def args(self, n, d):
        out = []
        for i in range(n):
            out += ([','] if i else []) + self.expr(d - 1, 15)
        return out

    def call(self, d):
        r = self.r
        k = r.randrange(9)
        if k == 0:
            return ['zero', '(', ')']
        if k == 1:
            return ['add', '(', *self.args(2, d), ')']
        if k == 2:
            return ['three', '(', *self.args(3, d), ')']
        if k == 3:
            return ['five', '(', *self.args(5, d), ')']
        if k == 4:
            return ['seven', '(', *self.args(r.choice([7, 7, 8]), d), ')']
        if k == 5:
            return ['f', '(', *self.args(2, d), ')']
        if k == 6:
            return ['fp', '(', *self.args(3, d), ')']
        if k == 7:
            return ['self', '(', r.choice('01'), ')', '(', *self.args(3, d), ')']
        return ['(', 'f', ')', '(', *self.args(2, d), ')']

    def primary(self, d):
        r = self.r
        if self.p('tr'):
            return ['tr', '(', *(self.expr(d - 1) if d > 0 else [self.const()]), ')']
        if d > 0 and self.p('call'):
            return self.call(d)
        if d > 0 and self.p('paren'):
            return ['(', *self.expr(d - 1), ')']
        if r.random() < .3:
            return [self.const()]
        if r.random() < .12:
            l = self.lval(d - 1)
            if l[0] == '*':
                return [r.choice(['++', '--']), *l]
            return r.choice([[r.choice(['++', '--']), *l], [*l, r.choice(['++', '--'])]])
        return self.lval(d - 1)

    def unary(self, d):
        if self.p('un'):
            return [self.r.choice(['-', '!', '-', '!', '*&'[0:0] or '-']), *self.unary(d)]
        return self.primary(d)

    def expr(self, d, lv=None):
        r = self.r
        if d <= 0:
            return self.unary(0)
        if self.p('asg'):
            return [*self.lval(d - 1), r.choice(ASG if r.random() < .7 else ASG[:1]), *self.expr(d - 1)]
        out = self.unary(d - 1)
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
            out += [r.choice(BIN), *self.unary(d - 1)]
        if self.p('cond'):
            out += ['?', *self.expr(d - 1), ':', *self.expr(d - 1)]
        return out

    def exprfun(self, n, depth=2):
        """a function that evaluates one expression and shows what it changed"""
        val = lambda: self.r.choice([self.const(), '-' + self.r.choice(SMALL + ['9223372036854775807']), self.r.choice(SMALL)])
        s = 't%d() { ' % n + SET % (val(), val(), val(), val(), self.r.choice('abcd'))
        s += ' printf("=%d ", ' + self.join(self.expr(depth, 15)) + '); ' + SHOW + ' }\n'
        return s

    # --- statements
    def cond(self):
        r = self.r
        return r.choice(['a', 'b<3', 'c&1', '!d', 'a==b', 'tr(a&1)', '--d>0', 'c++<4', 'b', '0', '1', 'a>c', '-1', '256', '4294967296', 'v[1]', 'x'])

    def simple(self):
        r = self.r
        self.n += 1
        return r.choice(['printf("s%d ");' % self.n, 'a++;', 'b--;', 'c=+2;', 'd=3;', 'a=b;', 'b=tr(%d);' % self.n, ';', '{}', 'd=-1;', 'x=x+1;',
                         'a=%d;' % r.randrange(5), 'printf("s%d ");' % self.n, 'b=a&3;'])

    def stmt(self, d, sw=None):
        r = self.r
        if self.labels and r.random() < .06:
            return self.labels.pop() + self.w(':') + self.stmt(d, sw)
        if sw is not None and r.random() < .3:
            c = r.choice(['0', '1', '2', '3', '4', '010', "'a'", "'*n'", '5', '6', '9223372036854775808'])
            v = {'010': 8, "'a'": 97, "'*n'": 10}.get(c) or int(c)
            if v not in sw:
                sw.add(v)
                return 'case' + self.w(' ' + c + self.r.choice(['', ' ']) + ':') + self.stmt(d, sw)
        if d <= 0:
            return self.simple()
        k = r.randrange(14)
        sub = lambda: self.stmt(d - 1, sw)
        if k < 2:
            return 'if' + self.w('(') + self.cond() + self.w(')') + sub()
        if k < 4:
            return 'if' + self.w('(') + self.cond() + self.w(')') + sub() + ' else' + self.w(' ') + sub()
        if k == 4:
            return 'while' + self.w('(') + self.cond() + ')' + '{ if (++fuel>40) return(fuel); ' + sub() + '}'
        if k == 5:
            return 'while' + self.w('(') + '++fuel<%d' % r.choice([3, 9, 20]) + ')' + sub()
        if k < 9:
            return '{' + self.w(' ') + ''.join(self.stmt(d - 1, sw) + self.w('') for _ in range(r.randrange(5))) + '}'
        if k == 9:
            s = set()
            body = '{' + ''.join(self.stmt(d - 1, s) for _ in range(r.randrange(1, 7))) + '}' if r.random() < .85 else self.stmt(d - 1, s)
            return 'switch' + self.w(' ') + r.choice(['a', '(b)', 'c&3', 'tr(d)', '(a&3)', 'a+1', "'a'", 'x', 'd<0']) + self.w(' ') + body
        if k == 10 and self.targets:
            return 'if(++fuel<30)goto ' + r.choice(self.targets) + self.w(';')
        if k == 11 and self.targets and r.random() < .4:
            return '{if(++fuel>30)return(1);goto ' + r.choice(self.targets) + ';' + self.simple() + '}'
        if k == 12 and r.random() < .4:
            return 'return' + r.choice([';', '(a);', ' ( b+1 ) ;', '(c?a:b);', '(0);'])
        return self.simple()

    def w(self, t):
        if self.r.random() < .15:
            return self.sp() + t + self.sp()
        return t

    def stmtfun(self, n, d=4):
        r = self.r
        self.n = 0
        names = ['ret', 'elsewhere', 'L', 'label', 'x_', 'casex', 'entry', 'tr', 'a', 'end', 'iffy', 'whilex', 'goto_', 'L1', 'autox', 'returnx']
        r.shuffle(names)
        k = r.choice([0, 0, 1, 2, 3])
        self.targets = names[:k]
        self.labels = names[:k]
        s = 't%d(x) { extrn v; auto a,b,c,d,fuel; a=%d; b=%d; c=%d; d=%d;' % (n, r.randrange(6), r.randrange(4), r.randrange(4), r.randrange(6))
        s += ''.join(self.stmt(d) + '\n' for _ in range(r.randrange(1, 6)))
        for l in self.labels:
            s += l + ':' + self.simple()
        s += ' printf("|%d %d %d %d %d*n",a,b,c,d,fuel);' + r.choice(['', 'return(a);', 'return;']) + ' }\n'
        return s

    # --- external definitions
    def ival(self):
        r = self.r
        return r.choice([self.const(), '-' + r.choice(SMALL), '- 5', '"s%d"' % r.randrange(99), '0', "'x'", '-0777', '-9223372036854775808', "'abcdefgh'"])

    def decls(self, nfiles=1):
        r = self.r
        names = ['g', 'gg', 'g1', 'g_1', 'G', 'data', 'x', 'y', 'v', 'vec', 'auto1', 'ifx', 'main1', 'a1b2', 'a', 'b', 'n', 'str', 'switchx', 'p0', 'L']
        r.shuffle(names)
        files = ['' for _ in range(nfiles)]
        objs = []
        for n in names[:r.randrange(1, 9)]:
            k = r.randrange(6)
            vals = [self.ival() for _ in range(r.choice([1, 2, 3, 5]))]
            lst = ','.join(self.w(v) for v in vals)
            fi = r.randrange(nfiles)
            if k == 0:
                objs.append((n, 0, []))
                t = n + self.w(';')
            elif k < 3:
                objs.append((n, 0, vals))
                t = n + ' ' + lst + self.w(';')
            elif k == 3:
                sz = r.choice(['', '0', '1', '2', '5', '012', '17'])
                objs.append((n, max(1, int(sz or '0', 8 if sz[:1] == '0' else 10)), []))
                t = n + self.w('[') + sz + self.w(']') + ';'
            else:
                sz = r.choice(['', '0', '1', '2', '3', '5', '9'])
                objs.append((n, max(len(vals), int(sz or '0')), vals))
                t = n + self.w('[') + sz + self.w(']') + ' ' + lst + ';'
            files[fi] += t + '\n'
        cell = lambda e, v: 'printf("%s ", ' + e + ');' if v.startswith('"') else 'printf("%d ", ' + e + ');'
        fn = 0
        shown = []
        for n, sz, vals in objs:
            vs = [v.strip() for v in vals] + ['0'] * (sz - len(vals) if sz else (not vals))
            body = 'extrn ' + n + ';'
            for i, v in enumerate(vs):
                e = n + '[%d]' % i if sz else ('(&%s)[%d]' % (n, i) if i or r.random() < .5 else n)
                body += cell(e, v)
            body += 'printf("*n");'
            for i, v in enumerate(vs):
                e = n + '[%d]' % i if sz else ('(&%s)[%d]' % (n, i) if i else n)
                if not v.startswith('"') and r.random() < .4:
                    body += e + '=%d;' % r.randrange(1000)
            files[r.randrange(nfiles)] += 'show%d() { %s }\n' % (fn, body)
            shown.append('show%d();' % fn)
            fn += 1
        sc = []
        for n, sz, vals in objs[:3]:
            # the same name as parameter, auto and label elsewhere
            files[r.randrange(nfiles)] += 'hide%d(%s) { auto q, %s; %s=+1; q=%s; return(q*2); }\n' % (fn, n, 'zz', n, n)
            sc.append('printf("h%%d*n", hide%d(%d));' % (fn, r.randrange(50)))
            fn += 1
        m = shown + sc + shown
        files[r.randrange(nfiles)] += 'main() {' + ''.join(m) + '}\n'
        return files

    def autos(self, n):
        """functions with parameters, scalars and vectors, checked for overlap"""
        r = self.r
        ps = ['p%d' % i for i in range(r.randrange(0, 8))]
        items = []
        s = 't%d(%s) {' % (n, ','.join(self.w(p) for p in ps))
        for i in range(r.randrange(1, 4)):
            ds = []
            for j in range(r.randrange(1, 4)):
                nm = 'x%d%d' % (i, j)
                k = r.randrange(3)
                if k:
                    ds.append(nm)
                    items.append((nm, 0))
                else:
                    sz = r.choice([('', 1), ('0', 1), ('1', 1), ('3', 3), ('010', 8), ("'*t'", 9)])
                    ds.append(nm + self.w('[') + sz[0] + self.w(']'))
                    items.append((nm, sz[1]))
            s += 'auto ' + self.w(',').join(ds) + self.w(';')
        s += 'auto i;'
        for nm, sz in items:
            if not sz:
                s += 'printf("%%d ", %s);' % nm
        cells = [p for p in ps]
        for nm, sz in items:
            cells += [nm] if not sz else ['%s[%d]' % (nm, i) for i in range(sz)]
        for p in ps:
            s += 'printf("%%d ", %s);' % p
        order = cells[:]
        r.shuffle(order)
        for k, c in enumerate(order):
            s += '%s=%d;' % (c, 1000 + k)
        if r.random() < .5 and n:
            s += 'if (level++ < 3) t%d(%s);' % (n, ','.join(str(r.randrange(99)) for p in ps)) if False else ''
        s += 'other(9,8,7,6,5,4,3);'
        for c in cells:
            s += 'printf("%%d ", %s);' % c
        s += 'i=0; while (i<3) { auto q, u[2]; printf("q%d ", q); q = i+1; u[0]=q; u[1]=u[0]+1; printf("%d ", u[1]); i++; }'
        for c in cells:
            s += 'printf("%%d ", %s);' % c
        if ps:
            s += 'if (%s > 1000) { %s = 2; printf("r%%d ", t%d(%s)); }' % (ps[0], ps[0], n, ','.join(str(r.randrange(9)) for p in ps)) if False else ''
        s += 'printf("*n"); return(%s); }\n' % r.choice(cells)
        call = 't%d(%s);' % (n, ','.join(str(r.randrange(-50, 50)) for p in ps))
        return s, call

    def mutate(self, src):
        """one token-like change"""
        r = self.r
        b = list(src)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if not b:
                break
            i = r.randrange(len(b))
            k = r.randrange(6)
            if k == 0:
                del b[i]
            elif k == 1:
                b.insert(i, r.choice(list('(){}[];,:?*/+-=<>!&|%\'"ax0 9_')))
            elif k == 2:
                b[i] = r.choice(list('(){}[];,:?*/+-=<>!&|%\'"ax0 9_'))
            elif k == 3:
                j = min(len(b), i + r.randrange(1, 12))
                del b[i:j]
            elif k == 4:
                j = min(len(b), i + r.randrange(1, 12))
                b[i:i] = b[i:j]
            else:
                del b[i:]
        return ''.join(b)
