"""Directed programs per property. R: program run and compared with the reference;
X: program that must be rejected; E(list): expressions shown one per line."""
LONG = 5000

def E(*es, pre='', decl=''):
    """each expression on its own"""
    fs = []
    for i, e in enumerate(es):
        fs.append(('t%d() { auto a, b, c, v[4]; a = 3; b = 5; c = -7; v[0]=10; v[1]=20; v[2]=30; v[3]=40; %s printf("%%d ", %s); printf("|%%d %%d %%d %%d %%d %%d %%d*n", a, b, c, v[0], v[1], v[2], v[3]); }\n' % (i, decl, e), 't%d();' % i))
    return ('batch', pre + 'id(x) return(x);\n', fs)

def F(src):
    """functions f<n>() and a main that calls them all: each on its own"""
    fs, pre = [], ''
    for l in src.split('\n'):
        m = __import__('re').match(r'(f\d+)\(\)', l)
        if m:
            fs.append((l + '\n', m[1] + '();'))
        elif not l.startswith('main'):
            pre += l + '\n'
    return ('batch', pre, fs)

def R(*srcs):
    return ('run', list(srcs))

def X(*srcs):
    return ('reject', list(srcs))

def M(body, pre=''):
    return R(pre + '\nmain() { ' + body + ' }\n')

def XM(body, pre=''):
    return X(pre + '\nmain() { ' + body + ' }\n')

D = {}
pad = lambda n: '/*' + 'x' * n + '*/'
D['C01'] = [R('main() { auto x; x = 7; if (x) x++; ' + 'abcdefghij' * n + '(); printf("%d*n",x); } ' + 'abcdefghij' * n + '() printf("E*n");') for n in (1, 2, 3, 4, 7, 13, 30, 400)] + [R(' ' * n + 'main() { printf("%d ab*n", 1234567); }' + ' ' * 3) for n in list(range(4050, 4100)) + [8180, 8185, 8190, 8191, 8192, 12280, 16384, 65530]] + \
    [R(pad(n) + 'main(){auto abc; abc = 12; abc =+ 34; if (abc == 46) printf("yes"); else printf("no"); printf("%d", abc - -1); }') for n in range(4000, 4100)] + \
    [R('main() { printf("%d", 1); }' + '\n' * k) for k in (0, 1, 2, 4065, 4069, 4070)] + \
    [R('main() { auto a,b; a=5; b=3; printf("%d %d %d %d %d %d %d", a+%sb, a-%sb, a<%sb, a>%sb, a=%sb, a*%sb, a); }'.replace('%s', w)) for w in ('', ' ', '\n', '\t')] + \
    [R('main() { printf("a%sb*n"); }'.replace('%s', chr(i))) for i in range(1, 256) if chr(i) not in '"*%\0'] + [R('main() { printf("%d*n", \'' + chr(i) + '\'); }') for i in range(1, 256) if chr(i) not in "'*\0"] + \
    [('reject', ['main() { printf("a"); }' + chr(i) + ' ']) for i in [0, 1, 2, 26, 27, 127] + list(range(33, 48)) + [58, 59, 64, 91, 93, 123, 125]] + \
    [R('main() { auto a; a = 1; printf("%d", a+\0 1); }')[0:0] or X('main() { auto a; a = 1; printf("%d", a+\0 1); }'), X('main() { auto a; a = 1; printf("%d", a-\0 1); }'), X('main() { auto a; a = 1; a =\0 1; }'), X('main() { auto a; a = 1 <\0 1; }'), X('main()\0 { }'), X('\0main() { }'), X('main() { }\0')]
ws = [' ', '\t', '\n', '\r\n', '\v', '\f', '/**/', '/***/', '/*/*/', '/* ** / */', ' /*a*/ /*b*/ ', '/*\n*/', '/*"*/', "/*'*/", '/*main(){*/', '/* * */', '/****/', '/*' + '*' * 100 + '/', '/*' + 'y' * LONG + '*/', ' ' * LONG, '/**/' * 300, '/*// */']
T = 'g ~ 5 ~ , ~ 6 ~ ; ~ v ~ [ ~ 3 ~ ] ~ 1 ~ , ~ - ~ 2 ~ ; ~ f ~ ( ~ x ~ , ~ y ~ ) ~ { ~ return ~ ( ~ x ~ - ~ y ~ ) ~ ; ~ } ~ main ~ ( ~ ) ~ { ~ extrn ~ g ~ , ~ v ~ ; ~ auto ~ a ~ , ~ w ~ [ ~ 2 ~ ] ~ , ~ b ~ ; ~ a ~ = ~ 3 ~ ; ~ L ~ : ~ w ~ [ ~ 1 ~ ] ~ = ~ 4 ~ ; ~ if ~ ( ~ a ~ > ~ 2 ~ ) ~ b ~ =+ ~ 1 ~ ; ~ else ~ b ~ = ~ 2 ~ ; ~ if ~ ( ~ b ~ == ~ 1 ~ ) ~ { ~ b ~ ++ ~ ; ~ goto ~ L ~ ; ~ } ~ while ~ ( ~ a ~ ) ~ a ~ =- ~ 1 ~ ; ~ switch ~ ( ~ b ~ ) ~ { ~ case ~ 3 ~ : ~ printf ~ ( ~ "three" ~ ) ~ ; ~ case ~ \'a\' ~ : ~ ; ~ } ~ printf ~ ( ~ "%d %d %d %d %d %d %d" ~ , ~ f ~ ( ~ a ~ , ~ b ~ ) ~ , ~ v ~ [ ~ 1 ~ ] ~ , ~ w ~ [ ~ 1 ~ ] ~ , ~ a ~ ? ~ 1 ~ : ~ - ~ b ~ , ~ ! ~ a ~ , ~ * ~ & ~ b ~ , ~ a ~ << ~ 1 ~ | ~ b ~ & ~ 7 ~ ) ~ ; ~ return ~ ; ~ }'
def subst(w):
    return T.replace(' ~ ', w).replace('~', w).strip(' ') if w else T
def minimal():
    out, toks = '', T.replace('~', '').split()
    for t in toks:
        if out and (out[-1].isalnum() or out[-1] == '_') and (t[0].isalnum() or t[0] == '_'):
            out += ' '
        elif out and out[-1] in '+-*/%<>=!&|?:' and t[0] in '+-*/%<>=!&|':
            out += ' '
        out += t
    return out
D['C02'] = [R(T.replace('~', ''))] + [R(T.replace('~', w)) for w in ws] + [R(T.replace(' ~ ', w)) for w in ws] + [R(minimal())] + [R(w + minimal() + w) for w in ws] + \
    [X('main() { printf("a"); } /* never closed'), X('main() { printf("a"); } /*/'), X('main() { /* /* */ */ printf("a"); }'), X('main() { printf("a"); /* }'), X('main() { } /*' + '*' * 9), X('/*')] + \
    [R('main() { printf("/** no comment **/ %d", 6 / 2); }'), R('main() { auto a; a=8; printf("%d%d", a/ 2, a/a /*x*/ /2); }'), R('main() { printf("%d*n", \'/*\' \'*\')}'.replace("'/*' '*')", "'/**'); "))] + \
    [X('main() { auto ab; a b = 1; }'), X('main() { printf("%d", 1 2); }'), X('ma in() { }'), X('main() { auto a; a = 1/**/2; }'), X('main() { printf("%d", 1 = = 1); }'), XM('au to a;'), XM('auto a; a+ +;'), XM('auto a; a= +1;'), XM('auto a; a = 1 < < 2;')] + \
    [M('auto a, x; a = 3; x%s= 5; x%s=+ 2; x %s ++; printf("%%d", x%s); a%s: x = 1;'.replace('%s', w).replace('%%', '%')) for w in ws[:8]]
nums = ['0', '1', '9', '10', '00', '01', '07', '010', '0777', '099' if 0 else '077', '123456789', '9223372036854775807', '9223372036854775808', '18446744073709551615', '18446744073709551616', '36893488147419103233', '0777777777777777777777', '01777777777777777777777', '02000000000000000000001', '1' + '0' * 30, '0' * 40 + '17', '000123', '4294967296', '2147483648', '65536', '99999999999999999999999999', '0123456701234567', '5' * 100]
D['C03'] = [E(*nums), E(*['-' + n for n in nums]), E(*['a+%s-b' % n for n in nums])] + \
    [R('g ' + ','.join(nums) + ';\nh ' + ', '.join('-' + n for n in nums) + ';\nw[] ' + ','.join(nums) + ';\nmain() { extrn g, h, w; auto i, p, q; p= &g; q= &h; i=0; while (i<%d) { printf("%%d %%d %%d*n", p[i], q[i], w[i]); i++; } }' % len(nums))] + \
    [R('g ' + n + ';main(){extrn g; switch(g) { case ' + n + ': printf("hit"); case 5: printf("x"); } }') for n in nums] + \
    [M('auto v[%s], e; e = 7; v[0] = 1; v[%d] = 2; printf("%%d %%d %%d", e, v[0], v[%d]);' % (n, k - 1, k - 1)) for n, k in (('1', 1), ('010', 8), ('8', 8), ('017', 15), ('0100', 64))] + \
    [R('v[%s]; w 77; main() { extrn v, w; v[0] = 1; v[%d] = 2; printf("%%d %%d %%d", w, v[0], v[%d]); }' % (n, k - 1, k - 1)) for n, k in (('1', 1), ('010', 8), ('8', 8), ('017', 15), ('0100', 64))] + \
    [X('g -;'), X('g ;h ,;'), X('g 1,;'), X('g -a;main(){}'), X('v[-1];'), X('v[x];'), X('v[1'), XM('auto v[-1];'), XM('auto v[x];'), XM('switch(1) { case -1: ; }'), XM('switch(1) { case : ; }'), XM('switch (1) { case x: ; }'), X('g -"a";'), X("g -'a';"), X('g --1;'), XM('printf("%d", 12a);'), XM('printf("%d", 0x10);'), X('g 12a;main(){}'), X('g 1.5;main(){}'), X('g +1;main(){}'), XM('auto v[1 2];')]
esc = {'0': 0, 'e': 0, '(': 123, ')': 125, 't': 9, '*': 42, "'": 39, '"': 34, 'n': 10, 'r': 13}
chars = ["''", "'a'", "'ab'", "'abc'", "'abcd'", "'abcdefgh'", "'*n*n*n*n*n*n*n*n'", "'a*tb'", "' '", "'\n'", "'/**'", "'\xff'", "'\x80\xff\x80\xff\x80\xff\x80\xff'", "'z*0z'", "'\"'", "'*\"'", "'0000000'", "'AAAAAAAA'", "'*''", "'*'*'*''"] + ["'*%s'" % e for e in esc] + ["'x*%sy'" % e for e in esc]
D['C04'] = [E(*chars)] + [E(c) for c in chars] + [R('g %s; v[] %s,%s; main() { extrn g, v; printf("%%d %%d %%d", g, v[0], v[1]); }' % (c, c, c)) for c in chars] + \
    [R('main() { switch(%s) { case %s: printf("hit"); case 99999: printf("x"); } }' % (c, c)) for c in chars] + [M("auto v['*t'], w; w=3; v[8]=1; printf(\"%d\", w);")] + \
    [X("main() { printf(\"%d\", 'abcdefghi'); }"), X("g 'abcdefghi';"), X("g '*n*n*n*n*n*n*n*n*n';"), X("main() { printf(\"%d\", 'a); }"), X("g 'a"), X("g '"), X("g 'a*"), XM("switch(1) { case 'abcdefghij': ; }"), XM("auto v['a;")] + \
    [X("g '*%s';main(){}" % chr(c)) for c in range(1, 128) if chr(c) not in esc] + [XM("printf(\"%%d\", 'a*%s');" % chr(c)) for c in range(1, 128) if chr(c) not in esc]
strs = ['', 'a', 'hello', '*n', 'a*tb', '*(x*)', '**', "*'", '*"', "'", 'a b  c', '/** x **/', '\n', '\x01\x7f', '\x80\xff', 'x' * 3000, '*"*"', '**n', 'abc*0def', 'abc*edef', '\xc3\xa9', '*r', '%', ';', '(', '""'[0:0], 'a*nb*nc', '0', '*0', '1*t2*t3', '\t', 'caf\xe9']
show = 'sh(s) { auto i, n; i = 0; while (i < n_) { printf("%d ", char(s, i)); i++; } }'
def strprog(ss):
    p = 'sh(s, n) { auto i; i = 0; while (i <= n) { printf("%d ", char(s, i)); i++; } printf("*n"); }\nmain() {\n'
    import bref
    for s in ss:
        q = bref.Parser('"%s"' % s)
        q.p = 1
        p += 'sh("%s", %d);\n' % (s, len(q.string()))
    return p + '}\n'
D['C05'] = [('strs', strs), ('strs', ['a', 'b', 'a', 'ab', 'b', ''] * 30)] + [('strs', [s]) for s in strs] + \
    [R('g "one", "two"; v[] "x", "yy", "", "one"; h "three";\nmain() { extrn g, v, h; auto p; p = &g; printf("%s %s %s %s %s|%s %s %s*n", p[0], p[1], v[0], v[1], v[2], v[3], h, "one"); }')] + \
    [R('f() return("f string"); g() { return("g string"); } h "glob"; main() { extrn h; printf("%s %s %s %s*n", f(), g(), h, "last"); printf("%s %s", g(), f()); }')] + \
    [R('f() return("f0");', 'main() { printf("%s %s*n", f(), "m0"); }'), R('g "abc"; k[2] "q", "r";', 'f() { return("in f"); }', 'main() { extrn g, k; printf("%s %s %s %s %s*n", g, k[0], k[1], f(), "m"); }')] + \
    [M('auto a, b; a = "same"; b = "same"; printf("%s%s %d", a, b, char(a, 4)); a = "other"; printf("%s%s", a, b);')] + \
    [X('g "abc'), X('main() { printf("abc); }'), X('g "a*'), X('g "abc*";main(){}')] + [X('g "*%s";main(){}' % chr(c)) for c in range(1, 128) if chr(c) not in esc] + [XM('printf("x*%sy");' % chr(c)) for c in range(1, 128) if chr(c) not in esc]
kws = ['return', 'auto', 'extrn', 'if', 'while', 'switch', 'case', 'goto', 'else']
idn = []
for k in kws:
    idn += [k + '1', k + '_', k + 'x', 'x' + k, k[:-1], k.upper(), k + k, k[0].upper() + k[1:]]
idn += ['a', 'A', 'ab', 'a1', 'a_', 'a_b', 'abcdefghijklmnopqrstuvwxyz', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'a0123456789', 'default', 'break', 'x' * 200, 'x' * 199, 'x' * 201, 'Z9_', 'label', 'entry', 'main_', 'i64', 'define', 'ret', 'br']
D['C06'] = [M('auto %s; %s' % (','.join(sorted(set(idn))), ' '.join('%s = %d;' % (n, i) for i, n in enumerate(sorted(set(idn))))) + ' '.join('printf("%%d ", %s);' % n for n in sorted(set(idn))))] + \
    [R('%s 5; f(%s) return(%s+1);\nmain() { extrn %s; auto i; printf("%%d %%d*n", %s, f(7)); %s = 3; %s++; i = 0; if (1) i = 1; %s =+ i; printf("%%d", %s); }' % ((n,) * 9)) for n in sorted(set(idn))] + \
    [R('%s(x) return(x*2);\nmain() { auto i; i=1; if (i) %s(1); else %s(2); printf("%%d*n", %s(4)); %s: i++; if (i<4) goto %s; printf("%%d*n", i); }' % ((n,) * 6)) for n in sorted(set(idn))] + \
    [M('auto i, %s; %s = 1; i = 0; if (i) i = 5; %s = 7; printf("%%d %%d", i, %s);' % ((n,) * 4)) for n in idn if n.startswith('else')] + \
    [M('auto i, %s; %s = 1; i = 0; if (i) i = 5; %s++; printf("%%d %%d", i, %s);' % ((n,) * 4)) for n in ['e', 'el', 'els', 'elsa', 'else1', 'else_', 'elseX', 'elses', 'e1', 'else0', 'elsE']] + \
    [M('auto a; a=%d; if(a)printf("T");else printf("F"); while(a){a=0;printf("W");} switch(a){case 0:printf("Z");} goto e;printf("no");e:return(0);' % k) for k in (0, 1)] + \
    [M('auto a;a=1;if(a)printf("x");else{printf("y");}if(!a)printf("p");else(printf("q"));if(!a)printf("r");else;if(!a);else*&a=4;printf("%d",a);')] + \
    [X('main() { auto ab; abc = 1; }'), X('main() { auto aB; ab = 1; }'), X('main() { auto a_; a = 1; }'), X('main() { auto %s; %s = 1; }' % ('x' * 200, 'x' * 199)), XM('auto a; If (a) a = 1;'), XM('autoa; a = 1;'), XM('auto 1x; x = 1;')]
ops = ['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '|']
pairs = ['a %s b %s c' % (x, y) for x in ops for y in ops if not (y in ('<<', '>>'))] + ['a %s b %s 2' % (x, y) for x in ops for y in ('<<', '>>')]
trip = ['a %s b %s 2 %s 3' % (x, y, z) for x in ops for y in ops for z in ops]
D['C07'] = [E(*pairs)] + [E(*[t]) for t in pairs[:0]] + [E(*trip[i:i + 90]) for i in range(0, len(trip), 90)] + \
    [E(*['a %s b ? c : 4 %s 2' % (x, x) for x in ops]), E(*['a ? b ? 1 : 2 : c ? 3 : 4', '0 ? 1 : 0 ? 2 : 3', '1 ? 0 ? 1 : 2 : 3', '(a ? b : c) + 1', 'a ? b : c + 1', 'a ? b = 2 : c', 'a = b ? 5 : 6', 'a == 3 ? b == 5 ? 1 : 2 : 3'])] + \
    [E('a = b = c = 4', 'a + b + c', 'a = b + 1', 'a =+ b =+ 2', 'a', 'b', 'a =* b = 3', 'a', 'a = b == 3', 'a === b', 'a =!= b', 'a =< b', 'a =<= b', 'a =<< 3', 'a =>> 1', 'a => 1', 'a =>= b', 'a =- -1', 'a = -1', 'a =-1', 'a=-b', 'a= -b', 'a= *&b', 'a=&b==&b', 'a=!b', 'a= !b', 'a=!=b', 'a= !=b'[0:0] or 'a', 'a=%2', 'a=|8', 'a=&12', 'a=/3')] + \
    [E('-a * b', '-a - b', '- a - - b', '!a + b', '!!a', '-!a', '!-a', '-a++', 'a', '-++a', 'a', '-v[1]', '!v[0]', '*v + 1', '*&a + b', '&a == &a', '*&v[2]', '-id(a)', '!id(0) + 1', 'id(a)++ - 1'[0:0] or 'a', 'a++ + b', 'a+++b', 'a---b', 'a - --b', 'a-- - b', 'b', 'a- -b', 'v[1]++ + v[1]', '++v[1]', '--*v', '++*v + 1', '*v++'[0:0] or 'a', '-a[&b==&b]'[0:0] or 'a', '&v[1] - v', '&v[3] - &v[1] >> 3', '-1 >> 1', '-1 << 1 + 1', '1 << 2 << 1', '64 >> 2 >> 1', '1 < 2 < 3', '3 > 2 > 1', '5 - 3 - 1', '100 / 5 / 2', '100 % 7 % 3', '2 * 3 % 4', '7 / 2 * 2', '1 | 2 & 3', '1 & 2 == 2', '1 | 0 == 0', '3 & 5 < 6', '4 | 1 << 1', '1 + 1 << 1 + 1', '(1 + 2) * 3', '2 * (3 + 4) * 5', '((a))', '(a) + (b)', '-(a + b)', '!(a & 1)', 'a<b==b>a', 'a!=b<c', 'a==b&c', 'a<=b>=0')] + \
    [XM('auto a,b; a + b = 3;'), XM('auto a,b; (a) = 3;'), XM('auto a; a ? 1 : a = 2;'), XM('auto a; -a = 1;'), XM('auto a; a+;'), XM('auto a; a ? 1;'), XM('auto a; (a;'), XM('auto a; a);'), XM('auto a; a == ;'), XM('a: 3 = 4;'), XM('auto a; a =! 3 4;'), XM('auto a; a !3;'), XM('auto a; ++3;'), XM('auto a; 3++;'), XM('auto a; &3;'), XM('auto a; a <> 3;'), XM('auto a; a =;'), XM('auto a; * ;'), XM('auto a; a b;'), XM('auto a; a[1;')]
vals = ['0', '1', '-1', '2', '-2', '7', '-7', '3', '-3', '63', '9223372036854775807', '(-9223372036854775807-1)', '4294967296', '-4294967297', '255', '-256', '1000000007']
def opprog(vs):
    f = ''.join('f%d(x,y) return(x%sy);\n' % (i, o) for i, o in enumerate(ops)) + 'n1(x) return(-x); n2(x) return(!x); n3(x) { x = -x; return(x); } n4(x) { auto b; if (!x) b = 5; else b = 6; return(b); }\n'
    b = ''
    def S(t):
        return eval(t)
    for x in vs:
        b += 'printf("%%d %%d %%d %%d*n", n1(%s), n2(%s), n3(%s), n4(%s));\n' % (x, x, x, x)
        for y in vs:
            for i, o in enumerate(ops):
                a, c = S(x), S(y)
                if o in '/%' and (c == 0 or (c == -1 and a < -2**62 * 2 + 1)):
                    continue
                if o in ('<<', '>>') and not 0 <= c < 64:
                    continue
                b += 'printf("%%d ", f%d(%s,%s));\n' % (i, x, y)
    bs = b.split('\n')
    fs, cs = '', ''
    for i in range(0, len(bs), 200):
        fs += 'b%d() { %s }\n' % (i, '\n'.join(bs[i:i + 200]))
        cs += 'b%d();' % i
    return f + fs + 'main() { ' + cs + ' }\n'
D['C08'] = [R(opprog(vals)), R(opprog(['5', '-5', '0', '9223372036854775807', '-9223372036854775807']))] + \
    [E(*['%s %s %s' % (x, o, y) for o in ops for y in ('1', '3', '62')]) for x in vals] + \
    [R('tr(x) { printf("t%d ", x); return(x); }\nmain() { ' + ''.join('printf("%%d*n", tr(7)%str(2)%str(1));' % (o, p) for o in ops for p in ops if not (o in ('>', '<', '>=', '<=', '==', '!=', '&', '>>') and p in '/%' and 0)) + '}')] + \
    [R('tr(x) { printf("t%d ", x); return(x); }\nmain() { auto a; a = 5; printf("%d %d %d %d", a + (a = 2), a, a++ * a, a - a--); printf("%d", -tr(3) + !tr(0) * tr(9)); }')]
asgs = ['=', '=+', '=-', '=*', '=/', '=%', '=&', '=|', '=<<', '=>>', '=<', '=>', '=<=', '=>=', '=!=', '===']
lvs = ['a', 'g', 'v[2]', 'w[1]', '*p', '*(v+8)', '*&b', 'v[i++]', 'v[tr(1)]', '*q++'[0:0] or '*(q=+8)', 'w[w[0]]', '(&g)[0]', 'm', '(&m)[1]']
def asgprog(o, vals=('100', '-100', '3')):
    s = 'g 9; v[4] 1,2,3,4; m 5, 6, 7;\ntr(x) { printf("t%d ", x); return(x); }\n'
    k = 0
    for l in lvs:
        for y in ('1', '3', '60'):
            for x in vals:
                s += 'f%d() { extrn g, v, m; auto a, b, w[3], p, q, i, z; g= %s; a= %s; b= %s; v[0]= %s; v[1]= %s; v[2]= %s; v[3]= %s; w[0]=1; w[1]= %s; w[2]=2; i=2; p= &b; q=v; m= %s; z=8; printf("%%d*n", %s%s%s); printf("%%d %%d %%d %%d %%d %%d %%d %%d %%d %%d %%d %%d %%d %%d*n", a,b,g,v[0],v[1],v[2],v[3],w[0],w[1],w[2],i,m,z,p==&b); }\n' % ((k,) + (x,) * 7 + (x, x) + (l, ' ' + o + ' ', y))
                k += 1
    return s + 'main() { ' + ''.join('f%d();' % i for i in range(k)) + '}\n'
def incprog():
    s = 'g 9; v[4] 1,2,3,4; m 5, 6, 7;\ntr(x) { printf("t%d ", x); return(x); }\n'
    k = 0
    for l in lvs:
        for e in ('++%s', '--%s', '%s++', '%s--', '-%s++', '++%s + 1', '!--%s', '(%s++) + 1', '1 - %s--', '&++%s == p', '++++%s', '----%s', '++%s =+ 5'[0:0] or '++%s'):
            if l[0] == '*' and e.startswith('%s') or (l[0] in '*(' and '%s++' in e) or (l[0] == '*' and '%s--' in e):
                l2 = l
                if l[0] == '*':
                    continue
            s += 'f%d() { extrn g, v, m; auto a, b, w[3], p, q, i, z; g=5; a=6; b=7; v[0]=8; v[1]=1; v[2]=2; v[3]=3; w[0]=1; w[1]=4; w[2]=2; i=2; p= &b; q=v; m=11; z=8; printf("%%d*n", %s); printf("%%d %%d %%d %%d %%d %%d %%d %%d %%d %%d %%d %%d %%d %%d*n", a,b,g,v[0],v[1],v[2],v[3],w[0],w[1],w[2],i,m,z,p==&b); }\n' % (k, e % l)
            k += 1
    return s + 'main() { ' + ''.join('f%d();' % i for i in range(k)) + '}\n'
D['C09'] = [F(asgprog(o)) for o in asgs] + [F(incprog())] + [E('a = 1', 'a =+ a = 4', 'a', 'a = b = 7', 'a + b', '(a = 3) + (b = 4)', 'a', 'v[0] = v[1] = v[2] = 9', 'v[0] + v[1] + v[2]', 'a =+ 1', 'a =- 1', 'a =* -1', 'a =/ 2', 'a =% 2', 'a++', 'a', '++a', 'a', 'a--', '--a', '*&a = 6', 'a', '*v = 4', 'v[0]', '++a = 20', 'a', 'a = (b = 2) * 3', 'a===b', 'a=== 0', 'a=!=1', 'v[v[0]=1] = 5', 'v[1]')] + \
    [XM('auto a; %s %s 1;' % (l, o)) for l in ('3', '(a)', '-a', '!a', 'a+1', 'a++', '&a', 'zz()', "'a'", '"s"') for o in asgs if not (o == '===' and l == '3' and 0)] + [XM('auto a; %s;' % e) for e in ('++3', '--3', '3++', '3--', '(a)++', '++(a)', '&(a)', '&3', 'a++++', '++a++'[0:0] or '++-a', '++!a', '--"x"', 'main()++', '++main()', '&main()', '&a++', '&-a', '(a+1)--')]
D['C10'] = [E('*v', 'v[0]', '*&a', 'v[1]', '*(v+8)', '*(v+16)', 'v[-1] == v', '(v+8)[0]', '(v+8)[1]', '(v+16)[-1]', '&v[2] - v', '&v[0] == v', '&v[3] - &v[0]', '*&*&a', '&*&a == &a', '&*v == v', '*&v[2]', 'v[a-1]', 'v[v[0]-8]', 'v[(v[1]-19)+1]', '*(*&v + 8)', 'v[id(1)]', '(&v[1])[1]', '(&v[3])[-2]', '0[v]'[0:0] or 'a', '(*&v)[2]', 'id(v)[3]', '*id(v)', '*id(&a)', '(a ? v : &b)[1]', '(v[0] = 77) + *v', '*v')] + \
    [M('auto m[3], r0[2], r1[2], r2[2]; m[0] = r0; m[1] = r1; m[2] = r2; m[0][0] = 1; m[0][1] = 2; m[1][0] = 3; m[1][1] = 4; m[2][0] = 5; m[2][1] = 6; printf("%d %d %d %d %d %d", r0[0], r0[1], r1[0], r1[1], r2[0], r2[1]); m[m[0][1]][m[0][0]] =+ 10; printf("%d %d", r2[1], m[2][1]++); *m[1] = 8; printf("%d %d", r1[0], &m[1][1] - &m[1][0]); printf("%d", **m);')] + \
    [R('g 5; v[3] 1,2,3; m 7,8,9; main() { extrn g, v, m; auto p, pp; p = &g; *p = 6; printf("%d ", g); p = &v; printf("%d ", *p == v); p = v; p[2] = 9; printf("%d ", v[2]); p = &m; p[1] = 80; p[2]++; printf("%d %d %d ", m, *(p+8), *(p+16)); pp = &p; (*pp)[0] = 4; printf("%d %d ", m, **pp); *pp = v; printf("%d", p[1]); }')] + \
    [R('sw(p, q) { auto t; t = *p; *p = *q; *q = t; } fill(v, n, x) { while (n > 0) v[--n] = x; } main() { auto a, b, v[5], i; a = 1; b = 2; sw(&a, &b); printf("%d %d ", a, b); fill(v, 5, 3); sw(&v[0], v + 8 * 4); fill(&v[1], 2, 7); i = 0; while (i < 5) printf("%d ", v[i++]); sw(v, &a); printf("%d %d", v[0], a); }')] + \
    [R('tr(x) { printf("t%d ", x); return(x); } v[4] 5,6,7,8; vv() { extrn v; printf("v "); return(v); } main() { extrn v; auto i; vv()[tr(2)] = tr(9); printf("%d ", v[2]); i = 0; v[i++] = v[i++]; printf("%d %d ", i, v[0]); *vv() = 3; printf("%d ", v[0]); (vv()+8)[tr(-1)] = 4; printf("%d ", v[0]); v[v[tr(0)]-4] =+ 5; printf("%d", v[0]); }')] + \
    [M('auto big, p, s; s = "abc"; p = &big; big = -1; p[0] = 5; printf("%d %d", big, char(s, 1));'), M('auto v[2], i; i = 9223372036854775807; v[1] = 3; printf("%d", (v)[i + i + 3]);')] + \
    [XM('auto a; &3;'), XM('auto a; a[;'), XM('auto a; a[];'), XM('auto a; a[1;'), XM('auto a; *;'), XM('auto a; &;'), XM('auto a; a[1]2;'), XM('auto a; &&a;'), XM('auto a; &(a);'), XM('auto a; a]1[;')]
callpre = 'tr(x) { printf("t%d ", x); return(x); } zero() { return(42); } one(a) { return(a+1); } two(a,b) { return(a*10+b); } three(a,b,c) { return(a*100+b*10+c); } eight(a,b,c,d,e,f,g,h) { printf("%d %d %d %d %d %d %d %d ", a,b,c,d,e,f,g,h); return(a+2*b+3*c+4*d+5*e+6*f+7*g+8*h); } ten(a,b,c,d,e,f,g,h,i,j) { printf("%d %d %d %d %d %d %d %d %d %d ", a,b,c,d,e,f,g,h,i,j); return(j); } gf; getf(k) { extrn gf; if (k) return(two); return(three); } fact(n) return(n<=1 ? 1 : n*fact(n-1)); vec() { extrn vv; return(vv); } vv[3] 4,5,6;\n'
D['C11'] = [R(callpre + 'main() { ' + ''.join('printf("%%d*n", %s);' % e for e in ['zero()', 'one(1)', 'two(1,2)', 'three(1,2,3)', 'two(tr(1),tr(2))', 'three(tr(1),tr(2),tr(3))', 'eight(1,2,3,4,5,6,7,8)', 'eight(-1,2,-3,4,-5,6,-7,8)', 'ten(1,2,3,4,5,6,7,8,9,10)', 'ten(tr(1),tr(2),tr(3),tr(4),tr(5),tr(6),tr(7),tr(8),tr(9),tr(10))', 'one(one(one(0)))', 'two(one(1),two(one(2),3))', 'getf(1)(7,8)', 'getf(0)(7,8,9)', 'fact(10)', 'vec()[1]', 'vec()[tr(2)]', '(zero)()', '(two)(3,4)', 'zero(1,2,3)', 'one(1,2,3)', 'two(1,2,3,4,5)', 'one(two(1,2)?3:4)', 'zero() + one(2) * two(3,4)', '-one(1)', '!zero()', 'one((1,2))'[0:0] or 'zero()', 'two(one (5) , 6 )', 'later(5)', 'later2(1,2,3)', 'later0()']) + '}\nlater(x) return(x+9); later2(a,b,c) return(a-b*c); later0() { return(17); }')] + \
    [R(callpre + 'main() { extrn gf; auto f, v[2], i; f = two; v[0] = three; v[1] = zero; gf = one; printf("%d %d %d %d ", f(1,2), v[0](1,2,3), v[1](), gf(5)); f = &zero; ; i = 0; f = v[i]; printf("%d ", f(7,8,9)); two2(two, 3, 4); }\ntwo2(two, a, b) { printf("%d %d ", two(a, b), two(b, a)); zero2(a); }\nzero2(zero) { auto one; one = three; printf("%d", one(zero, zero+1, zero+2)); }')[0:0] or
     R(callpre + 'main() { extrn gf; auto f, v[2], i; f = two; v[0] = three; v[1] = zero; gf = one; printf("%d %d %d %d ", f(1,2), v[0](1,2,3), v[1](), gf(5)); i = 0; f = v[i]; printf("%d ", f(7,8,9)); two2(two, 3, 4); }\ntwo2(two, a, b) { printf("%d %d ", two(a, b), two(b, a)); zero2(a); }\nzero2(zero) { auto one; one = three; printf("%d", one(zero, zero+1, zero+2)); }')] + \
    [R('main() { printf("%d %d*n", f(1,2,3), g()); }', 'f(a,b,c) return(a+b*c); g() { extrn h; return(h()); } h;' if 0 else 'f(a,b,c) return(a+b*c); g() return(5);')] + \
    [R('ap(f, x) return(f(x)); dbl(x) return(x*2); tab[3]; main() { extrn tab; auto dbl2, g; g = ap; tab[0] = dbl; tab[1] = ap; printf("%d %d %d", ap(dbl, 4), g(dbl, 5), tab[1](tab[0], 6)); }')] + \
    [R('odd(n) { if (n == 0) return(0); return(even(n-1)); } even(n) { if (n == 0) return(1); return(odd(n-1)); } main() printf("%d %d", odd(9), even(9));')] + \
    [R('f(a,b,c,d,e,f1,g,h,i,j,k,l,m,n,o,p) return(a+2*b+3*c+4*d+5*e+6*f1+7*g+8*h+9*i+10*j+11*k+12*l+13*m+14*n+15*o+16*p); main() printf("%d", f(' + ','.join(str(i * i) for i in range(16)) + '));')] + \
    [XM(e + ';', callpre) for e in ('one(', 'one(1', 'one(1,', 'one(1,)', 'one(,1)', 'one(,)', 'one(1 2)', 'one(1;2)', 'one(1,,2)', 'one(1]', 'one 1', 'zero(;)', 'two(1,2', 'one(1))', 'one)1(', 'one(1)2', 'one(a b)', 'zero(,)', 'one(1,2,)')]
D['C12'] = [E('a ? 1 : 2', '0 ? 1 : 2', 'a ? b ? 1 : 2 : 3', '0 ? 1 : a ? 2 : 3', 'a ? 0 ? 1 : 2 : 3', '(a ? 0 : 1) ? 5 : 6', 'a == 3 ? b == 4 ? 1 : 2 : b == 5 ? 3 : 4', '1 + (a ? 1 : 2)', 'id(a ? 7 : 8)', 'v[a ? 1 : 2]', '-1 ? 1 : 2', '4294967296 ? 1 : 2', '256 ? 1 : 2', '!a ? 1 : 2', 'a < b ? a : b', 'a ? -1 : +1'.replace('+1', '1'), '(a ? v : 0)[2]', 'a = 0 ? 4 : 5', 'a', '(0 ? 1 : 2) + (1 ? 3 : 4)', 'a ? (b ? (c ? 1 : 2) : 3) : 4', '0 ? 0 : 0 ? 0 : 0 ? 0 : 9', '*(a ? &a : &b)', '(a ? id : 0)(5)', 'a?b:c', 'a ? b = 2 : 3', 'b')] + \
    [R('tr(x) { printf("t%d ", x); return(x); } main() { ' + ''.join('printf("%%d*n", %s);' % e for e in ['tr(1) ? tr(2) : tr(3)', 'tr(0) ? tr(2) : tr(3)', 'tr(1) ? tr(0) ? tr(5) : tr(6) : tr(3)', 'tr(0) ? tr(1) : tr(0) ? tr(2) : tr(3)', '(tr(0) ? tr(1) : tr(2)) ? tr(3) : tr(4)', 'tr(tr(1) ? tr(2) : tr(3))', 'tr(0) + (tr(1) ? tr(2) : tr(3)) + tr(4)', 'tr(1) ? tr(2) + tr(3) : tr(4) + tr(5)', 'tr(0) ? 1 / tr(0) : 7', 'tr(2) > tr(1) ? tr(3) : tr(4)']) + '}')] + \
    [M('auto a, b; a = 1; b = 0; a ? b =+ 5 : (b =- 5); printf("%d ", b); (a ? &a : &b)[0] = 9; printf("%d %d ", a, b); if (a ? 0 : 1) printf("x"); else printf("y"); while (a > 5 ? 1 : 0) a--; printf("%d", a); switch (a == 5 ? 3 : 4) { case 3: printf("three"); case 4: printf("four"); } return(a ? 1 : 2);')] + \
    [XM('auto a; a ? 1;'), XM('auto a; a ? 1 2;'), XM('auto a; a ? : 2;'), XM('auto a; a ? 1 :;'), XM('auto a; a ? 1 ; 2;'), XM('auto a; ? 1 : 2;'), XM('auto a; a ? 1, 2;'), XM('auto a; (a ? 1) : 2;')]
def sm(*bodies):
    return [R('tr(x) { printf("t%d ", x); return(x); }\nmain() { auto a,b,c,i,j; ' + b + ' printf("|%d %d %d %d %d", a,b,c,i,j); }') for b in bodies]
D['C13'] = sm('a=1;b=2;c=a+b;', 'if (1) a=1; else a=2;', 'if (0) a=1; else a=2;', 'if (0) a=1;', 'if (1) a=1; b=2;', 'if (0) a=1; b=2;', 'if (1) if (0) a=1; else a=2; else a=3;', 'if (0) if (1) a=1; else a=2;', 'if (1) { if (0) a=1; } else a=2;', 'if (0) { if (0) a=1; } else a=2;', 'if (1) if (1) if (0) a=1; else a=2;', 'if (0) a=1; else if (1) a=2; else a=3;', 'if (0) a=1; else if (0) a=2; else a=3;', 'if (0) a=1; else if (0) a=2; else if (1) a=3; else a=4; b=5;', 'while (i<5) i++;', 'while (i<3) { j=0; while (j<4) { j++; a++; } i++; }', 'while (0) a=1;', 'i=5; while (i) i--;', 'i=-3; while (i) { i++; a=+i; }', 'while (tr(i)<3) i=i+1;', 'if (256) a=1; if (4294967296) b=1; if (-1) c=1;', 'while (i<10) if (i&1) { i++; a++; } else { i=+3; b++; }', '{{{a=1;}b=2;}c=3;}', ';;;a=1;;', 'if (1); else a=1; if (0); else b=1;', 'if (1) {} else {a=1;}', 'while (i++<3) if (i==2) a=i; else while (j<i) j++;', 'if (a==0) { a=1; if (a==0) b=1; else b=2; } else { b=3; }', 'while (i<3) { if (i==1) { i++; b++; } else { i++; if (i==3) c=9; } }', 'if(tr(1))if(tr(0))a=1;else if(tr(1))a=2;else a=3;', 'if (0) while (1) a++; else b=1;', 'if (1) while (a<3) a++; else b=1;', 'i=3; while(i) { i--; if (i==1) { a=1; } b++; } c=b;') + \
    [XM(b) for b in ('if 1 ;', 'if (1 ;', 'if () ;', 'while () ;', 'while 1 ;', '{ ;', '}', 'auto a; a = 1', 'if (1)', 'while (1)', 'if (1) ; else', 'while (1;) ;', '1', 'auto a; a=1 b=2;', 'if (1)) ;', '(1;', '1);')] + [X('main() { if (1) ; '), X('main() {'), X('main()'), X('main() { auto a; a = 1; ')]
D['C14'] = sm('switch (1) { case 0: tr(0); case 1: tr(1); case 2: tr(2); }', 'switch (5) { case 0: tr(0); case 1: tr(1); }', 'a=2; switch (a) { case 2: tr(2); goto e; case 3: tr(3); } e: b=1;', 'switch (3) { tr(9); case 3: tr(3); }', 'switch (4) { tr(9); case 3: tr(3); }', 'switch (1) case 1: tr(1);', 'switch (2) case 1: tr(1);', 'switch (1) ;', 'switch (tr(1)) { }', 'switch (1) { case 1: switch (2) { case 1: tr(11); case 2: tr(12); case 3: tr(13); } case 2: tr(2); }', 'switch (2) { case 1: switch (2) { case 2: tr(12); } case 2: tr(2); }', 'switch (3) { case 1: { tr(1); case 3: tr(3); } case 4: tr(4); }', 'switch (2) { if (0) { case 2: tr(2); } else { tr(5); } tr(6); }', 'switch (2) { while (a<3) { tr(7); case 2: a++; } tr(8); }', "switch ('a') { case 'b': tr(1); case 'a': tr(2); case 97+0: ; }"[0:0] or "switch ('a') { case 'b': tr(1); case 'a': tr(2); }", 'switch (8) { case 010: tr(1); }', 'switch (-1) { case 18446744073709551615: tr(1); case 1: tr(2); }', 'switch (4294967297) { case 1: tr(1); case 4294967297: tr(2); }', 'i=0; while (i<5) { switch (i) { case 0: a=+1; case 1: a=+10; goto n; case 3: a=+100; } n2: b++; i++; if (0) { n: c++; i++; } }', 'i=0; while (i<6) { switch (i&3) { case 0: tr(i); case 2: tr(i+10); } i++; }', 'switch (1) { case 1: case 2: case 3: tr(3); }', 'switch (3) { case 1: case 2: case 3: tr(3); }', 'switch (0) { case 1: tr(1); } switch (1) { case 1: tr(2); } switch (1) { case 2: tr(3); case 1: tr(4);}', 'switch (tr(2) + tr(1)) { case 3: tr(3); }', 'a=1; switch a { case 1: tr(1); }', 'switch (1) { case 2: switch (1) { case 1: tr(1); } case 1: switch (3) { case 1: tr(2); } tr(3); }', 'switch (1) { { { case 1: tr(1); } } }', 'switch (a) { case 0: a = 5; case 5: tr(5); case 6: switch (a) { case 5: tr(55); case 0: tr(50); } }', 'switch (7) { L: tr(1); case 7: if (a++ < 2) goto L; }', 'i=1; switch (i) { case 1: return(tr(3)); case 2: tr(2); }', 'switch (9) { default: tr(1); case 9: tr(2); }') + \
    [R('f(x) { switch (x) { case 1: return(10); case 2: return(20); case 3: x = 7; } return(x); } main() { auto i; i = 0; while (i < 5) printf("%d ", f(i++)); }'), R('f(x) switch (x) { case 1: printf("one"); case 2: printf("two"); } g(x) switch (x) { case 1: printf("ONE"); } main() { f(1); g(1); f(2); g(2); f(3); }')] + \
    [XM(b) for b in ('case 1: ;', 'switch (1) { case 1: ; case 1: ; }', 'switch (1) { case 1: ; } case 2: ;', "switch (1) { case 'a': ; case 97: ; }", 'switch (1) { case 010: ; { case 8: ; } }', 'switch (1) { case 1 ; }', 'switch (1) { case: ; }', 'switch (1) { case x: ; }', 'switch { }', 'switch (1) { case 1: }', 'switch (1) { switch (2) { } case 1: ; case 1: ; }', 'switch (1) { case 18446744073709551617: ; case 1: ; }', 'if (1) case 1: ;', 'switch (1) { case -1: ; }', 'switch (1)')]
D['C15'] = sm('goto e; a=1; e: b=1;', 'L: a++; if (a<5) goto L;', 'goto in; if (0) { in: a=1; } b=2;', 'goto in; while (a<2) { in: a++; b++; }', 'while (1) { a++; if (a>3) goto out; } out: b=a;', 'goto a1; a2: b=+2; goto a3; a1: b=1; goto a2; a3: c=b;', 'goto x; { auto q; q=1; x: q=5; a=q; }', 'a: a=1; b: b=2; c: c=3;', 'i: i++; if (i<3) goto i; j=i;', 'goto L; L: ;', 'L1: L2: L3: a++; if (a==1) goto L1; if (a==2) goto L2; if (a==3) goto L3;', 'if (1) goto t; else goto f; t: a=1; goto e; f: a=2; e: ;', 'goto tr; a=1; tr: b=tr(3);', 'while (i<3) { j=0; while (1) { j++; if (j>2) goto next; a++; } next: i++; }', '{ goto o; a=1; } b=1; o: c=1;', 'goto main; a=1; main: b=1;', 'L: if (a<3) { a++; goto L; }', 'if (0) { L: a=1; goto M; } goto L; M: b=1;', 'goto L ; a=1; L : b=1;', 'entry: a++; if (a<2) goto entry; unreachable: b++; if (b<3) goto unreachable;', 'goto e; e: while (a<2) { goto f; b++; f: a++; }') + \
    [R('f(x) { L: x--; if (x>0) goto L; return(x); } g(L) { auto M; M=L; goto L; M=0; L: return(M+L); } main() { auto f1; L: printf("%d %d", f(5), g(7)); f: if (0) goto f; printf("%d", f(2)); }'), R('x 5; f(a) { extrn x; x: a++; if (a<x) goto x; return(a+x); } main() { extrn x; printf("%d %d", f(0), x); }')] + \
    [XM(b) for b in ('goto L;', 'L: ; L: ;', 'goto L; { K: ; }', 'L: a: ; { L: ; }', 'goto ;', 'goto L', 'goto L M; L: ; M: ;', 'goto (L); L: ;', 'L: ; if (1) { if (1) L: ; }', 'auto a; goto a;', 'goto l; L: ;', 'goto L1; L: ;', 'goto main;', 'L:')] + [X('f() { L: ; } main() { goto L; }'), X('main() { goto L; } f() { L: ; }'), X('f(L) goto L; main() ;'), X('f() { goto x; x: ; } g() { goto x; } main() ;')]
D['C16'] = [R(p + ' main() { auto i; i=-2; while (i<4) { printf("%d ", f(i)); i++; } }') for p in ('f(x) return(x);', 'f(x) return(x+1);', 'f(x) { return(x); }', 'f(x) { if (x) return(5); }', 'f(x) { if (x) return(5); return(6); }', 'f(x) { return; }', 'f(x) ;', 'f(x) {}', 'f(x) { x = 3; }', 'f(x) { while (1) { x++; if (x>10) return(x); } }', 'f(x) { while (x>0) { x--; if (x==1) return(100); } return(200); }', 'f(x) { if (x>0) return(x); else return(-x); }', 'f(x) { { { return(x*2); } } printf("no"); }', 'f(x) { return(1); printf("no"); return(2); }', 'f(x) { return(x ? x : 9); }', 'f(x) { switch (x) { case 1: return(11); case 2: x = 5; } return(x); }', 'f(x) { return(g(x)); } g(x) return(x*x);', 'f(x) { if (x<0) return; printf("pos "); return(1); }', 'f(x) { goto L; M: return(2); L: if (x) goto M; return(3); }', 'f(x) { return(x); L: x = 1; goto L; }', 'f(x) return;', 'f(x) { if (x) { return(1); } else { } }', 'f(x) { auto y; y = x; return ( y ) ; }', 'f(x) return(x = x + 2);', 'f(x) { return((x)); }', 'f(x) { return(-x); }', 'f(x) { while (1) return(x); }', 'f(x) { if (x) while (1) return(x); return(7); }')] + \
    [XM(b) for b in ('return 1;', 'return (1)', 'return (1', 'return ();', 'return 1', 'return', 'return (1) 2;', 'return (1;', 'return(1)return(2);', 'return(1,2);')]
D['C17'] = [R('f%d(%s) { %s } main() { f%d(%s); }' % (n, ','.join('p%d' % i for i in range(n)), ''.join('printf("%%d ", p%d); p%d = %d;' % (i, i, 100 + i) for i in range(n)) + ''.join('printf("%%d ", p%d);' % i for i in range(n)), n, ','.join(str(7 * i - 3) for i in range(n)))) for n in range(0, 20)] + \
    [R('f(a,b,c) { auto p; p = &a; *p = 9; p = &b; *p = 8; p = &c; *p = 7; printf("%d%d%d ", a, b, c); if (a == 9) { g(a, b, c); } printf("%d%d%d ", a, b, c); } g(c, b, a) { c++; b =+ 2; a = c; printf("%d%d%d ", a, b, c); } main() { auto a, b, c; a = 1; b = 2; c = 3; f(a, b, c); printf("%d%d%d ", a, b, c); }')] + \
    [R('r(n, a, b) { auto s; a =+ n; b =* 2; if (n > 0) s = r(n-1, a, b); else s = 0; printf("%d %d %d %d*n", n, a, b, s); return(s + a - b); } main() printf("%d", r(5, 1, 2));')] + \
    [R('f(x) { x = x + 1; return(x); } main() { auto x; x = 5; printf("%d %d %d", f(x), f(f(x)), x); }'), R('f(a,b) { auto p, q; p = &a; q = &b; printf("%d ", p != q); *p = 5; printf("%d ", b); *q = 6; printf("%d ", a); return(p); } main() { f(1, 2); }'), R('sw(a, b, t) { t = a; a = b; b = t; printf("%d %d %d ", a, b, t); } main() { auto a, b; a=1; b=2; sw(a, b, 0); printf("%d %d", a, b); }')] + \
    [R('f(a , /* c */ b\n,c\t) { return(a*100+b*10+c); } main() printf("%d", f(1,2,3));')] + \
    [X(p + ' main() ;') for p in ('f(a { }', 'f(a b) { }', 'f(,) { }', 'f(a,) { }', 'f(,a) { }', 'f(a;b) { }', 'f(*a) { }', 'f((a)) { }', 'f(a', 'f(', 'f(a,', 'f(a[]) {}')]
D['C18'] = [R('f(n) { auto a, b, v[3], c; printf("%d %d %d ", a, b, c); a = n; v[0] = n+1; v[1] = n+2; v[2] = n+3; b = n+4; c = n+5; if (n > 0) f(n-1); printf("%d %d %d %d %d %d*n", a, b, c, v[0], v[1], v[2]); a = b = c = 77; } main() { f(3); f(2); }')] + \
    [('lit', ['main() { auto i, s; i = 0; while (i < 300000) { auto x, v[10]; s =+ x; x = i; v[9] = i; v[0] = 1; i++; } printf("%d %d", s, i); }'], b'0 300000'), ('lit', ['main() { auto i; i = 0; while (i < 3000000) { auto x; x = x + 1; if (x != 1) printf("bad"); i++; } printf("%d", i); }'], b'3000000'), M('auto i, p, q; i = 0; while (i < 5) { auto x, v[2]; if (i == 0) { p = &x; q = v; } printf("%d %d ", p == &x, q == v); i++; }'), M('auto i; L: auto2: ; i++; { auto x; printf("%d ", x); x = 5; } if (i < 3) goto L;')] + \
    [M('auto v[%s], w; v[0] = 1; w = 2; printf("%%d %%d %%d %%d", v[0], w, &v[0] == v, v[-1] == v);' % n) for n in ('', '0', '1', '2', '10', "'a'", '0100', '5000', ' 3 ')] + \
    [M('auto a, v[3], b, w[2], c; auto i; a=1; b=2; c=3; i=0; while (i<3) { v[i]=10+i; i++; } w[0]=20; w[1]=21; printf("%d %d %d %d %d %d %d %d", a, v[0], v[1], v[2], b, w[0], w[1], c); v = w; printf("%d", v[1]);'), M('auto a; auto b; auto c[2], d; printf("%d%d%d", a, b, d); { auto e; e = 1; a = e; } printf("%d", a + e);'), R('f(p) { auto a, b, c; printf("%d%d%d ", a, b, c); a = b = c = p; g(p); printf("%d%d%d ", a, b, c); } g(p) { auto x, y, z, v[4]; printf("%d%d%d ", x, y, z); x = y = z = p + 1; v[0] = v[1] = v[2] = v[3] = 7; } main() { f(3); g(4); f(5); }'), R('f() { if (0) { auto x; x = 5; } x = 3; return(x); } main() printf("%d", f());'), R('f(a) { auto v[2]; if (a) { auto w[2], t; w[0] = 1; w[1] = 2; t = 3; v[0] = w[0]; v[1] = w[1] + t; } return(v[0] * 10 + v[1]); } main() printf("%d", f(1));')] + \
    [XM(b) for b in ('auto a, a;', 'auto a; auto a;', 'auto a, b, a;', 'auto a; { auto a; }', 'auto a[2], a;', 'auto a; auto a[2];', 'auto ;', 'auto a b;', 'auto a', 'auto a,;', 'auto ,a;', 'auto a[;', 'auto a[2;', 'auto a 3;', 'auto a = 3;', 'auto a[x];', 'auto a[-1];', 'auto a[2]b;', 'auto (a);', 'if (0) auto a; auto a;', 'auto a; while (0) { auto b, a; }')] + [X('f(a) { auto a; } main() ;'), X('f(a, b) { auto c, b; } main() ;'), X('f(a, b) { auto a[3]; } main() ;')]
D['C19'] = [R('g 5; h -5; i; j 1,2,3; k "s"; l \'ab\'; v[3] 1,2,3; w[5] 1,2; x[2] 1,2,3,4; y[]; z[4]; u[] 7,8; t[0]; s[1] 9; r[0] 1,2; q 1,"two",-3,\'4\';\nmain() { extrn g,h,i,j,k,l,v,w,x,y,z,u,t,s,r,q; printf("%d %d %d %d %d %d %s %d*n", g,h,i,j,(&j)[1],(&j)[2],k,l); printf("%d %d %d|%d %d %d %d %d|%d %d %d %d|%d|%d %d %d %d|%d %d|%d|%d|%d %d|%d %s %d %d*n", v[0],v[1],v[2],w[0],w[1],w[2],w[3],w[4],x[0],x[1],x[2],x[3],y[0],z[0],z[1],z[2],z[3],u[0],u[1],t[0],s[0],r[0],r[1],q,(&q)[1],(&q)[2],(&q)[3]); printf("%d %d %d*n", v[-1]==v, &v==v-8, &v[0]==v); x[3]=5; v[2]=6; w[4]=7; z[3]=8; y[0]=9; t[0]=10; printf("%d %d %d %d %d %d %d", x[3],v[2],w[4],z[3],y[0],t[0],x[2]); }')] + \
    [R('v[%d]%s; e 123; main() { extrn v, e; auto i; i=0; while (i<%d) { printf("%%d ", v[i]); v[i]=i+1000; i++; } printf("%%d", e); i=0; while (i<%d) { printf("%%d ", v[i]); i++; } }' % (n, ' ' + ','.join(str(j * 3 - 4) for j in range(k)) if k else '', max(n, k, 1), max(n, k, 1))) for n in (0, 1, 2, 3, 8, 100) for k in (0, 1, 2, 3, 5, 9)] + \
    [R('a 1; b 2; c 3;', 'd 4; v[3] 5,6; main() { extrn a,b,c,d,v; a=+10; v[2]=a; show(); }', 'show() { extrn a,b,c,d,v; printf("%d %d %d %d %d %d %d", a,b,c,d,v[0],v[1],v[2]); }'), R('a;b;c;main(){extrn a,b,c;printf("%d%d%d",a,b,c);a=1;b=2;c=3;printf("%d%d%d",a,b,c);}'), R('a -0; b - 7; c -010; d -9223372036854775808; e -18446744073709551615; main() { extrn a,b,c,d,e; printf("%d %d %d %d %d", a,b,c,d,e); }'), R('big[50000]; main() { extrn big; big[49999] = 3; printf("%d %d %d", big[49999], big[0], big[25000]); }')] + \
    [X(p + ' main() ;') for p in ('g 1 2;', 'g 1,;', 'g ,1;', 'g 1', 'g', 'g -;', 'g x;', 'v[3', 'v[3;', 'v[3] 1,;', 'v[3] 1 2;', 'v[3] ,;', 'v[x];', 'v] ;', 'g = 1;', 'g 1+2;', 'v[3] = 1;', 'v[2][3];', 'g 1,,2;', 'v[3] 1', 'g "a" "b";', 'g "a', "g 'abcdefghijk';", ';', 'g 1,x;', 'v[1] y;', 'v[-1];', '[3];', '5 + ;', 'g 1:')]
D['C20'] = [R('x 3; f(x) { extrn x; x = 5; return(x); } g() { extrn x; return(x); } h() { auto x; extrn x; x = 7; return(x); } k() { extrn x; auto x; x = 8; return(x); } main() { printf("%d %d %d %d %d", f(1), g(), h(), k(), g()); }'), R('v[3] 1,2,3; f(v) { extrn v; return(v); } g() { extrn v; return(v[1]); } h() { auto v[2]; extrn v; v[1] = 9; return(v[1]); } main() printf("%d %d %d %d", f(4), g(), h(), g());')] + \
    [R(a + b) for a in ('v[3] 1,2,3; ', 'v[3]; ', 'v[]; ', 'v 5; ', 'v; ', 'v 1,2; ', 'f() { extrn v; v = 1; } v; ', 'v 1; f() { extrn v; v = 2; } ', 'v[2] 1; f() { extrn v; v[1] = 2; } ') for b in ('main() { v[0] = 2; }', 'main() { printf("%d", v[0]); }', 'main() { v = 2; }', 'main() { printf("%d", v + 1); }', 'main() { auto a; a = &v; *a = 3; }', 'main() v++;', 'g() { extrn v; return(1); } main() { printf("%d", v); }', 'g(v) { return(v); } main() { printf("%d", v); }', 'g() { auto v; v = 2; return(v); } main() { printf("%d", v[0]); }', 'main() v(1);')] + \
    [R('x 1; f() { extrn x; x++; return(x); } g() { auto x; x = 50; return(x+f()); } h(x) { x =+ 100; return(x+f()); } main() { extrn x; printf("%d %d %d %d ", x, f(), g(), h(1)); printf("%d", x); }'), R('main() { extrn x; x = 5; f(); printf("%d", x); } f() { extrn x; x =* 3; }', 'x 2;'), R('x 2;', 'main() { extrn x; x =+ 5; f(); printf("%d", x); } f() { extrn x; x =* 3; }'), R('f() { extrn y; y++; return(y); }', 'main() { extrn y; printf("%d ", f()); y = 10; printf("%d", f()); }'), R('v[3] 1,2,3;', 'main() { extrn v; v[1] = 7; s(); printf("%d %d", v[0], v[1]); }', 's() { extrn v; v[0] = v[1] * 2; }'), R('x() return(5); main() { auto y; y = x; printf("%d %d", x(), y()); }'), R('x 9; f(x) { return(x); } g() { auto x; return(x); } h() { extrn x; return(x); } main() { printf("%d %d %d", f(3), g(), h()); }'), R('f() { extrn a, b; a = 1; b = 2; } a; b; main() { extrn b, a; f(); printf("%d %d", a, b); }'), R('x 3; main() { auto y; { extrn x; y = x; } x = 4; printf("%d %d %d", y, x, f()); } f() { extrn x; return(x); }'), R('main() { extrn x; auto p; p = &x; *p = 6; printf("%d %d", x, f() == p); } f() { extrn x; return(&x); } x;'), R('f(a) { auto b; b = a; g(b+1); return(a+b); } g(b) { auto a; a = b * 2; b = a; } main() { auto a, b; a = 1; b = 2; printf("%d %d %d", f(5), a, b); }'), R('a 1;', 'b 2; f() { extrn a, b; return(a*10+b); }', 'c 3; main() { extrn a, b, c; a = 4; b = 5; printf("%d %d", f(), c); }'), R('f() return(1);', 'main() { printf("%d %d", f(), g()); }', 'g() return(f()+1);'), R('m 1,2; main() { extrn m; f(); printf("%d %d", m, (&m)[1]); } f() { extrn m; m = 5; (&m)[1] = 6; }'), R('a; ab; abc; main() { extrn a, ab, abc; a = 1; ab = 2; abc = 3; printf("%d%d%d", a, ab, abc); }'), R('f(x) { return(x+1); } main() { auto f2; f2 = f; printf("%d", f2(4)); h(7); } h(f) { auto g; g = f; printf("%d %d", f, g); }')] + \
    [XM(b, p) for p, b in (('', 'x = 1;'), ('x 1;', 'x = 1;'), ('f() ;', 'extrn f;'), ('', 'f(); extrn f;'), ('', 'auto a; a = 1; b = 2;'), ('g() { extrn q; q = 1; } q;', 'q = 2;'), ('', 'x =+ 1;'), ('', 'x++;'), ('', '&x;'), ('f(a) { auto b; b = a; }', 'b = 1;'), ('f(a) { auto b; b = a; }', 'a = 1;'), ('', 'extrn ;'), ('', 'extrn a b;'), ('', 'extrn a'), ('', 'extrn a[3];'), ('', 'extrn a,;'), ('g() { zz(); }', 'extrn zz;'), ('', '--x;'), ('g() { auto c; c = 1; }', 'printf("%d", c = 2);'))]
D['C21'] = []
D['C25'] = []
# the order of evaluation when an operand changes what another one reads
_fp = 'fa(x) { printf("a%d ", x); return(x+100); } fb(x, y) { printf("b%d ", x); return(x+200); } set(p, v) { *p = v; return(7); } gp; gv[3];'
def _ords(lv, init, a, b, pre=_fp):
    return ['%s = %s; printf("%%d ", %s((%s = %s) ? 10 : 20)); ' % (init, a, lv, lv, b), '%s = %s; printf("%%d ", %s(set(&%s, %s))); ' % (init, a, lv, lv, b),
            '%s = %s; printf("%%d ", %s(1, %s = %s)); ' % (init, a, lv, lv, b), '%s = %s; printf("%%d ", (%s)(%s = %s)); ' % (init, a, lv, lv, b)]
D['C11'] = [R(_fp + 'main() { extrn gp, gv; auto p, v[3], q; q = v; ' + s + '}') for l in ('p', 'v[1]', 'gp', 'gv[2]') for s in _ords(l, l, 'fa', 'fb')] + D['C11']
_ix = 'set(p, v) { *p = v; return(1); } gp; a[3] 1,2,3; b[3] 4,5,6;'
D['C10'] = [R(_ix + 'main() { extrn gp, a, b; auto p, v[3], q; ' + ('%s = a; ' % l) + s.replace('L', l) + ' printf(" %d%d%d%d%d%d", a[0], a[1], a[2], b[0], b[1], b[2]); }') for l in ('p', 'v[1]', 'gp') for s in
            ('printf("%d", L[(L = b) ? 1 : 2]);', 'printf("%d", L[set(&L, b)]);', 'L[set(&L, b)] = 9;', 'L[1] = set(&L, b);', 'L[2] =+ (L = b) ? 3 : 4;', '*L = set(&L, b);', 'L[0]++; L = b; L[0]--;', 'printf("%d %d", L[1] + set(&L, b), L[1]);', '(L = b)[2] = 8;', '&L[set(&L, b)] == &a[1];', 'printf("%d", &L[set(&L, b)] == &a[1]);')] + D['C10']
D['C19'] = [R('v[%s]%s; e 123; main() { extrn v, e; auto i; printf("%%d %%d %%d %%d %%d", v[0], v[1], v[%d], v[%d], e); v[%d] = 5; printf(" %%d %%d", v[0], v[%d]); }' % (n, ' ' + ','.join(str(41 + j) for j in range(k)) if k else '', m // 2, m - 1, m - 1, m - 1))
            for n in ('2', '3', '10', '63', '64', '100', '101', '128', '200', '257', '1000', '1025', '5000') for k in (0, 1, 2, 5) for m in (max(int(n), k),)] + D['C19']
_all = [(k, d[0], d[1]) for k in sorted(D) if k < 'C21' for d in D[k]]
D['C22'] = [('accept', a[0]) for _, k, a in _all if k in ('run', 'reject') and len(a) == 1 and len(a[0]) < 3000]
# names that resemble keywords, and names that differ late
_near = ['extern', 'extr', 'extrns', 'Extrn', 'returns', 'retur', 'ret', 'Return', 'RETURN', 'autos', 'aut', 'Auto', 'iff', 'i', 'If', 'IF', 'ifs', 'whiles', 'whil', 'While', 'switches', 'swtch', 'Switch', 'cases', 'cas', 'Case', 'gotos', 'got', 'Goto', 'elses', 'els', 'Else',
         'for', 'do', 'break', 'continue', 'defaults', 'static', 'int', 'char2', 'register', 'entry', 'next', 'repeat', 'unless', 'until', 'loop', 'label', 'var', 'let', 'const', 'void', 'sizeof', 'struct', 'func', 'function', 'begin', 'end', 'then', 'elif', 'elseif', 'stop', 'exit2', 'call', 'endcase', 'finish', 'resultis', 'leave', 'jump']
D['C06'] = [R(''.join('g%d() { auto %s; %s = %d; %s++; if (%s) %s =+ 1; { %s =+ 2; } printf("%%d ", %s); }\n' % ((k, n, n, k) + (n,) * 5) for k, n in enumerate(_near)) + 'main() { ' + ''.join('g%d();' % k for k in range(len(_near))) + '}'),
            R(''.join('%s(x) { printf("%%d ", x); }\n' % n for n in _near) + 'main() { ' + ''.join('%s(%d); ' % (n, k) for k, n in enumerate(_near)) + '}'),
            R('main() { auto a; a = 0; ' + ''.join('goto %s; a =+ 100; %s: a++; ' % (n, n) for n in _near) + 'printf("%d", a); }')] + D.get('C06', [])
_long = [('x' * n + a, 'x' * n + b) for n in (1, 5, 6, 7, 8, 9, 15, 16, 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 300) for a, b in (('a', 'b'), ('', '1'), ('a1', 'a2'))]
D['C15'] = [R(''.join('f%d() { auto n; n = 0; goto %s; %s: printf("one%d "); if (n++) return (n); goto %s; %s: printf("two%d "); goto %s; }\n' % (k, q, p, k, q, q, k, p) for k, (p, q) in enumerate(_long)) + 'main() { ' + ''.join('printf("%%d*n", f%d());' % k for k in range(len(_long))) + '}')] + D['C15']
_lv = R(''.join('f%d(%s, %s) { printf("%%d %%d ", %s, %s); %s = 5; printf("%%d ", %s); }\ng%d() { auto %s, %s; %s = 1; %s = 2; printf("%%d %%d*n", %s, %s); }\n' % (k, p, q, p, q, p, q, k, p, q, p, q, p, q) for k, (p, q) in enumerate(_long)) + 'main() { ' + ''.join('f%d(3, 4); g%d();' % (k, k) for k in range(len(_long))) + '}')
_lf = R(''.join('%s() return (%d);\n%s() return (%d);\n' % (p, 2 * k, q, 2 * k + 1) for k, (p, q) in enumerate(_long[2::3])) + 'main() { ' + ''.join('printf("%%d %%d*n", %s(), %s());' % pq for pq in _long[2::3]) + '}')
_lg = R(''.join('%s %d;\n%s %d;\n' % (p, 2 * k, q, 2 * k + 1) for k, (p, q) in enumerate(_long[2::3])) + ''.join('h%d() { extrn %s, %s; printf("%%d %%d*n", %s, %s); }\n' % (k, p, q, p, q) for k, (p, q) in enumerate(_long[2::3])) + 'main() { ' + ''.join('h%d();' % k for k in range(len(_long) // 3)) + '}')
for _p in ('C06', 'C17', 'C18', 'C20'):
    D[_p] = [_lv] + ([_lf, _lg] if _p != 'C17' and _p != 'C18' else []) + D[_p]
# many of each kind in one module
_many = [('lit', ['main() { auto s; ' + ''.join('s = "%d"; ' % k for k in range(n)) + 'printf("%s", s); }'], str(n - 1).encode()) for n in (300, 1030, 10010)]
D['C05'] = D.get('C05', []) + _many[:2]
D['C22'] = _many + [('accept', 'main() { auto a; ' + s * 1100 + '}') for s in ('if (a) a = 1; else a = 2;', 'while (a) a = 0;', 'a = a ? 1 : 2;', 'switch (a) { case 1: ; }', 'return (a);')] + \
    [('accept', 'main() { goto l1; ' + ''.join('l%d: goto l%d; ' % (k, (k + 1) % 1100) for k in range(1100)) + '}'), ('accept', ''.join('g%d %d; f%d(x) return (x);\n' % (k, k, k) for k in range(1100)) + 'main() ;')] + D['C22']
