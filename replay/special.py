"""Replay of the properties that are not about a single program's output."""
import json, os, random, shutil, subprocess, sys, tempfile, time
import bref, directed, gen
HERE = os.path.dirname(os.path.abspath(__file__))

def C01(s):
    """the lexer behind readers that deliver the bytes in odd ways"""
    repo = os.environ.get('BLANG_REPO', '/repo')
    o = s.tmp + '/overlay.json'
    json.dump({'Replace': {repo + '/zz_verif_reader_test.go': HERE + '/reader_test.go.txt'}}, open(o, 'w'))
    env = dict(os.environ, GOFLAGS='-buildvcs=false', GOPROXY='off', GOTOOLCHAIN='local')
    r = subprocess.run(['go', 'test', '-overlay', o, '-vet=off', '-count=1', '-timeout', '100s', '-run', 'TestVerifReader', '.'], cwd=repo, env=env, capture_output=True, timeout=200)
    t = (r.stdout + r.stderr).decode('latin1')
    if r.returncode and ('VERIF-READER' in t or 'panic' in t):
        s.report(['(see below)'], ('the same program whatever way its bytes are delivered', t[:3000]))

ROB = ['', ' ', '/', '/*', 'a', 'a(', 'a()', 'a(){', 'a(){}', 'a[', 'a[]', 'a[1', 'a;', 'a 1', 'a -', "a '", 'a "', 'a "*', 'main(){x', 'main(){x:', 'main(){goto', 'main(){if', 'main(){if(1', 'main(){if(1)', 'main(){if(1);e', 'main(){while', 'main(){switch', 'main(){case', 'main(){switch(1)case',
       'main(){a[', 'main(){a(', 'main(){a(1', 'main(){a(1,', 'main(){1', 'main(){1+', 'main(){1=', 'main(){1==', 'main(){a=', 'main(){a==', 'main(){a=<', 'main(){a=!', 'main(){a<', 'main(){a!', 'main(){a+', 'main(){a?', 'main(){a?1', 'main(){a?1:', 'main(){-', 'main(){+', 'main(){--', 'main(){!', 'main(){*', 'main(){&',
       'main(){return', 'main(){return(', 'main(){return(1', 'main(){return(1)', 'main(){auto', 'main(){auto a', 'main(){auto a[', 'main(){auto a[3', "main(){auto a['", 'main(){extrn', 'main(){extrn a', 'main(){auto a[9223372036854775807];}', 'main(){auto a[9223372036854775808];}', 'main(){auto a[18446744073709551615];}', 'main(){auto a[18446744073709551616];}', 'main(){auto a[4611686018427387904];}',
       'v[9223372036854775807];', 'v[9223372036854775808];', 'v[18446744073709551615];', 'v[18446744073709551615] 1;', 'v[18446744073709551614] 1,2;', 'v[99999999999999999999999];', 'v[9223372036854775808] 1;', 'v[4611686018427387904];', 'main(){switch(1){case 1:case 2:}}', 'main(){L:}', 'main(){L:;goto L;}', 'main(){5 6}', 'main();', 'main(){;}', 'main(a,a){a;}', 'main(){f()();}', 'main(){"a"[0]();}', "main(){'a'();}", 'main(){(1)(2)(3);}', 'main(){main=1;}', 'main(){&main;}', 'main(){*main;}', 'main(){main[0];}', 'f;f(){}', 'f(){}f;', 'f(){}f(){}', 'f;f;', 'f[3];f[4];', 'main(){extrn f;f();}f(){}', 'main(){f();}f;', 'main(){f();}f[3];', 'main(){f(1);f(1,2);f();}f(a,b,c){}', 'main(){extrn main;}', 'f(){extrn f;}', 'f(f){f();}', 'f(){auto f;f();}', '.', '5;', '5 5;', '_;', '_(){}', 'main(){_;}', 'main(){_a=1;}', 'main(){auto _a;_a=1;}', 'main(){extrn _a;_a=1;}', '%', 'a=', 'a,', 'a:', 'a(,){}', 'a(b', 'a(b,', 'main(){return(f);}', 'main(){return(f)}',
       'main(){{{{{', 'main(){}}}}', 'main(){((((', 'main(){))))', 'main(){[[[[', 'main(){]]]]', 'main(){a[a[a[', 'main(){f(f(f(', 'main(){1?1?1?', '\0', 'main\0(){}', 'main(){\0}', 'a \0;', '\xff', '\xff(){}', '\xe9 5;', 'main(){\xe9=1;}', 'main(){auto \xe9;\xe9=1;}', 'main(){"\xff";}', 'llvm.va_start(){}', 'main(a,b,c){}f(a,b){}', 'va_start(a,b){}', 'main(){x:x:;}', 'main(){switch(1){case 1:case 1:}}', 'main(){while(1)}', 'main(){if(1)}', 'main(){if(1)else}', 'main(){if(1);else}', 'main(){else;}', 'main(){default:;}', 'main(){break;}', 'main(){case:;}', 'i8;', 'ptr(){}', 'main(){auto x[0];x[0]=1;}', 'main(){auto x[00];x[0]=1;}']

def C21(s):
    for src in ROB:
        s.robust(src)
        s.robust(src + ' ')
        s.robust(src + ';')
    for t in ('(', '-', '!', '*', '&', '1+', 'f(', 'v[', '1?', 'a=', '{', 'if(1)', 'while(1)', 'x:', 'switch(1)', '1?1:', '/**/', '(1+', '++', '- -'):
        for n in (1000, 20000):
            s.robust('main(){' + t * n)
            s.robust('main(a,v,f){' + t * n + 'a' + {'(': ')', 'f(': ')', 'v[': ']', '(1+': ')'}.get(t, '') * n + ';}')
    s.robust('a ' + '1,' * 20000 + '1;')
    s.robust('a' * 100000 + ';')
    s.robust('main(){"' + 'a' * 100000 + '";}')
    s.robust('main(){' + 'a:' * 5 + '}')

def wellformed(s, seed, n):
    """what the compiler accepts, the backend accepts, whatever the program does"""
    g = gen.Gen(seed)
    k = n % 4
    if k == 0:
        src = gen.PRE + g.exprfun(0) + 'main() t0();'
    elif k == 1:
        src = 'tr(x) return(x); v[3] 1,0,2;\n' + g.stmtfun(0) + 'main() t0(1);'
    elif k == 2:
        src = g.decls()[0]
    else:
        f, c = g.autos(0)
        src = f + 'other(a) ; main() { ' + c + ' }'
    accepts(s, src)
    for _ in range(4):
        accepts(s, g.mutate(src))

def accepts(s, src):
    try:
        p = bref.Parser(src).program()
    except bref.Reject:
        p = None
    except (bref.Undef, RecursionError):
        return
    names = [] if p is None else list(p.funcs) + list(p.globals)
    if p and p.clash:
        return
    if any('5' <= n[:1] <= '9' or n[:1].isdigit() for n in names):
        return
    d = tempfile.mkdtemp(dir=s.tmp)
    try:
        open(d + '/f.b', 'wb').write(src.encode('latin1', 'replace'))
        rc, o, e = s.tool([s.tmp + '/blang', 'f.b', '--emit-llvm', '-o', 'f.ll'], d, 10)
        if rc:
            return
        s.count += 1
        rc, o, e = s.tool(['clang', '-c', '-w', 'f.ll', '-o', 'f.o'], d, 30)
        if rc and b'redefinition' not in e.split(b'\n')[0][:0]:
            s.report([src], ('the backend accepts the generated code', e.decode('latin1')[:1500]))
    finally:
        shutil.rmtree(d, ignore_errors=True)

FAKE = '''#!/bin/sh
n=0; [ -f "$FAKELOG" ] && n=$(grep -c '^RUN' "$FAKELOG")
echo RUN >> "$FAKELOG"
out=
prev=
for a in "$@"; do echo "ARG $a" >> "$FAKELOG"; [ "$prev" = -o ] && out=$a; prev=$a; done
for a in "$@"; do case "$a" in *.ll) [ "$a" != "$out" ] && { [ -f "$a" ] && echo "IN $(cksum < "$a")" >> "$FAKELOG" || echo "IN missing" >> "$FAKELOG"; };; esac; done
[ "$n" = "$FAKEFAIL" ] && { [ -n "$FAKEPART" ] && : > "$out"; exit 1; }
: > "$out"
exit 0
'''

def model(argv, files, fail, part):
    """expected exit status, clang command lines and files: None where nothing is promised"""
    ins, opt, dbg, ls, Ls, out, kind, save = [], '0', False, [], [], '', 'exe', False
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == '-o':
            i += 1; out = argv[i]
        elif a.startswith('-O'):
            opt = a[2:]
        elif a == '-g':
            dbg = True
        elif a.startswith('-L'):
            Ls += a[2:].split(',')
        elif a.startswith('-l'):
            ls += a[2:].split(',')
        elif a == '-S':
            kind = 's'
        elif a == '-c':
            kind = 'o' if kind != 's' else 's'
        elif a == '--emit-llvm':
            kind = 'll' if kind == 'exe' else kind
        elif a == '--save-temps':
            save = True
        else:
            ins.append(a)
        i += 1
    if '-c' in argv and '--emit-llvm' in argv and '-S' not in argv:
        kind = 'o'
    fs = dict(files)
    runs = []
    err = lambda: (1, runs, fs)
    if opt not in ('0', '1', '2', '3'):
        return err()
    ext = lambda f: os.path.splitext(f)[1]
    stem = lambda f: os.path.splitext(os.path.basename(f))[0]
    for f in ins:
        if ext(f) not in ('.b', '.ll', '.s', '.o', '.a') or f not in fs:
            return err()
    okext = {'ll': ('.b',), 's': ('.b', '.ll'), 'o': ('.b', '.ll', '.s'), 'exe': ('.b', '.ll', '.s', '.o', '.a')}[kind]
    if any(ext(f) not in okext for f in ins):
        return err()
    if kind != 'exe' and out and len(ins) != 1:
        return err()
    bad = lambda f: fs[f] == 'bad'
    base = (['-O' + opt] if opt != '0' else []) + (['-g'] if dbg else [])
    if kind == 'll':
        for f in ins:
            if bad(f):
                return err()
            fs[out or stem(f) + '.ll'] = ('ir', f)
        return 0, runs, fs
    if kind in 'so':
        for f in ins:
            o = out or stem(f) + '.' + kind
            src = f
            if ext(f) == '.b':
                if bad(f):
                    return err()
                src = ('ir', f)
            runs.append(dict(base=base, ins=[src], o=o, flag='-S' if kind == 's' else '-c'))
            if fail == len(runs) - 1:
                if part:
                    fs[o] = 'made'
                return err()
            fs[o] = 'made'
            if save and ext(f) == '.b':
                fs['*ir'] = fs.get('*ir', ()) + (f,)
        return 0, runs, fs
    o = out or stem(ins[0])
    for k, f in enumerate(ins):
        if ext(f) == '.b' and bad(f):
            if save:
                fs['*ir'] = tuple(g for g in ins[:k] if ext(g) == '.b')
            return err()
    runs.append(dict(base=base, ins=[('ir', f) if ext(f) == '.b' else f for f in ins], o=o, Ls=Ls, ls=ls))
    if save:
        fs['*ir'] = tuple(g for g in ins if ext(g) == '.b')
    if fail == 0:
        if part:
            fs[o] = 'made'
        return err()
    fs[o] = 'made'
    return 0, runs, fs

def cksum(b):
    return subprocess.run(['cksum'], input=b, capture_output=True).stdout.decode().strip()

def scenario(s, prop, r):
    d = tempfile.mkdtemp(dir=s.tmp)
    try:
        os.mkdir(d + '/home'); os.mkdir(d + '/w'); os.mkdir(d + '/w/sub')
        w = d + '/w'
        pool = ['a.b', 'b.b', 'sub/a.b', 'sub/c.b', 'x.y.b', 'p.ll', 'q.s', 'z.o', 'lib.a', 'sub/p.ll', 'a.tmp.b', 'main.b', 'sub/q.s']
        extra = ['a.tmp.ll', 'b.ll', 'a.tmp.0.ll', 'keep.txt', 'a.s', 'out.txt', 'b.tmp.1.ll', 'old.o', 'a.ll.bak', 'tmp.ll', 'sub/a.ll', 'sub/a.o']
        files = {}
        nin = r.choice([1, 1, 1, 2, 2, 3, 4])
        ins = r.sample(pool, nin)
        if len({os.path.basename(f).rsplit('.', 1)[0] for f in ins}) < nin:
            return
        kinds = {'C25': .25}.get(prop, .06)
        for f in ins:
            files[f] = 'bad' if f.endswith('.b') and r.random() < kinds else 'good'
        for f in r.sample(extra, r.randrange(0, 4)):
            files[f] = 'other'
        argv = list(ins)
        if prop == 'C25' and r.random() < .12:
            argv.append(r.choice(['missing.b', 'a.c', 'noext', 'missing.o', 'sub', 'a.B', '-O4', '-Ofast', '-O9', '-O20', '-O12', '-O31', '-O01', '-O00', '-O3x', '-O-1', '-O0x', 'x.txt']))
            if argv[-1] in ('a.c', 'noext', 'a.B', 'x.txt'):
                files[argv[-1]] = 'good'
            if argv[-1] == 'sub':
                return
        k = r.random()
        if k < .6:
            argv.append(r.choice(['-c', '-S', '--emit-llvm']))
        outs = ['out', 'o.x', 'sub/out', 'res.s', 'res.o', 'out.ll', 'out.b.o']
        if r.random() < .5 and (len(ins) == 1 or k >= .6 or r.random() < .2):
            argv += ['-o', r.choice(outs)]
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            argv.append(r.choice(['-Lx', '-Ly/z', '-L/q', '-lm', '-lfoo', '-lb2', '-La,b', '-lc,d']))
        if r.random() < .3:
            argv.append('-O' + r.choice('0123'))
        if r.random() < .3:
            argv.append('-g')
        if r.random() < {'C23': .4}.get(prop, .15):
            argv.append('--save-temps')
        if '-o' not in argv:
            r.shuffle(argv)
        else:
            i = argv.index('-o')
            two = argv[i:i + 2]
            rest = argv[:i] + argv[i + 2:]
            r.shuffle(rest)
            j = r.randrange(len(rest) + 1)
            argv = rest[:j] + two + rest[j:]
        ins = [a for a in argv if a in files]
        fail = r.choice([None, None, None, 0, 0, 1, 2]) if prop != 'C24' else r.choice([None] * 6 + [0, 1])
        part = r.random() < .3
        content = {}
        for i, (f, c) in enumerate(files.items()):
            t = {'bad': r.choice(['main() { x = ; }', 'main() {', 'f(', 'main() { return 1; }', '5', 'g 1', 'main() { printf("%d"; }']), 'good': 'm%d(x) return(x+%d);\n' % (i, i), 'other': 'file %d\n' % i}[c].encode()
            open(w + '/' + f, 'wb').write(t)
            content[f] = t
        env = dict(os.environ, PATH=s.tmp + '/bin:' + os.environ['PATH'], HOME=d + '/home', FAKELOG=d + '/log', FAKEFAIL=str(fail), FAKEPART='1' if part else '')
        rc, o, e = s.tool([s.tmp + '/blang', *argv], w, 20, env=env)
        s.count += 1
        want, runs, fs = model(argv, files, fail, part)
        log = open(d + '/log').read() if os.path.exists(d + '/log') else ''
        got = []
        for l in log.splitlines():
            if l == 'RUN':
                got.append(dict(a=[], i=[]))
            elif l.startswith('ARG '):
                got[-1]['a'].append(l[4:])
            else:
                got[-1]['i'].append(l[3:])
        now = {}
        for root, _, ff in os.walk(w):
            for f in ff:
                p = os.path.relpath(root + '/' + f, w)
                now[p] = open(w + '/' + p, 'rb').read()
        problems = {'C23': [], 'C24': [], 'C25': []}
        # an input or an old file that an output overwrites is of no interest
        outsmade = {x['o'] for x in runs} | {f for f, v in fs.items() if v == 'made' or isinstance(v, tuple)}
        if outsmade & set(ins):
            return
        irs = {}
        for f in ins:
            if f.endswith('.b') and files[f] == 'good':
                s.tool([s.tmp + '/blang', f, '--emit-llvm', '-o', d + '/ir.ll'], w, 20)
                if os.path.exists(d + '/ir.ll'):
                    irs[f] = open(d + '/ir.ll', 'rb').read()
                    os.remove(d + '/ir.ll')
        if (rc != 0) != (want != 0) or rc not in (0, 1):
            problems['C25'].append('exit status %r, expected %r' % (rc, want))
            if want == 0:
                problems['C24'].append('exit status %r, expected %r' % (rc, want))
        if rc and not (o + e).strip():
            problems['C25'].append('no error message')
        if want and b'generated' in o and not runs:
            problems['C25'].append('an output is reported')
        # backend invocations
        if len(got) != len(runs):
            problems['C25' if want else 'C24'].append('%d backend invocations, expected %d' % (len(got), len(runs)))
        else:
            for g, x in zip(got, runs):
                a = g['a']
                exp, ck = [], []
                tmpnames = []
                pos = [t for t in a if not t.startswith('-')]
                real = []
                skip = False
                for t in a:
                    if skip:
                        skip = False
                        continue
                    if t == '-o':
                        skip = True
                    elif not t.startswith('-'):
                        real.append(t)
                if len(real) != len(x['ins']):
                    problems['C24'].append('inputs %r' % real)
                    continue
                li = iter(g['i'])
                for t, y in zip(real, x['ins']):
                    if isinstance(y, tuple):
                        c = next(li, None) if t.endswith('.ll') else None
                        if y[1] in irs and c != cksum(irs[y[1]]):
                            problems['C24'].append('input %s is not the code of %s' % (t, y[1]))
                        tmpnames.append(t)
                        if t in files:
                            pass
                    else:
                        if t.endswith('.ll'):
                            next(li, None)
                        if t != y:
                            problems['C24'].append('input %s instead of %s' % (t, y))
                if a[-2:] != ['-o', x['o']] and ['-o', x['o']] not in [a[i:i + 2] for i in range(len(a))]:
                    problems['C24'].append('output name in %r' % a)
                opts = [t for t in a if t.startswith('-O') or t == '-g']
                if sorted(opts) != sorted(x['base']):
                    problems['C24'].append('options %r' % a)
                if 'flag' in x:
                    if x['flag'] not in a or (set(a) & {'-c', '-S'}) != {x['flag']}:
                        problems['C24'].append('mode in %r' % a)
                    if any(t.startswith(('-l', '-L')) for t in a):
                        problems['C24'].append('libraries in %r' % a)
                else:
                    Ls = [t[2:] for t in a if t.startswith('-L') and t[2:] in ('x', 'y/z', '/q', 'a', 'b')]
                    ls = [t[2:] for t in a if t.startswith('-l')]
                    if Ls != x['Ls'] or ls != ['b'] + x['ls']:
                        problems['C24'].append('libraries in %r' % a)
                    iL = max([i for i, t in enumerate(a) if t.startswith('-L')] or [-1])
                    il = min([i for i, t in enumerate(a) if t.startswith('-l')] or [99])
                    if iL > il or set(a) & {'-c', '-S'}:
                        problems['C24'].append('order in %r' % a)
        # files
        irleft = fs.pop('*ir', ())
        left = [f for f in now if f not in fs]
        for f, v in fs.items():
            if f not in now:
                if v in ('good', 'bad', 'other'):
                    problems['C23'].append('%s was removed' % f)
                elif v == 'made' or isinstance(v, tuple):
                    problems['C24'].append('%s was not made' % f)
            elif v in ('good', 'bad', 'other') and f not in outsmade and now[f] != content[f] and f not in [t for g in got for t in g['a']]:
                problems['C24'].append('%s was overwritten' % f)
            elif isinstance(v, tuple) and v[0] == 'ir' and v[1] in irs and now[f] != irs[v[1]]:
                problems['C24'].append('%s is not the code of %s' % (f, v[1]))
        if want and not runs and 'exe' not in argv:
            o2 = argv[argv.index('-o') + 1] if '-o' in argv else None
            if o2 and o2 in now and o2 not in files:
                problems['C25'].append('an output was made')
        if '--save-temps' not in argv:
            if left:
                problems['C23'].append('left behind: %r' % left)
        else:
            for f in irleft if not want else ():
                if f in irs and irs[f] not in now.values():
                    problems['C23'].append('the intermediate of %s is gone' % f)
        # an old file in the place of an intermediate counts as the driver's own
        p = problems[prop]
        if p:
            names = {t for g in got for t in g['a']}
            clash = [f for f in files if files[f] == 'other' and f in names]
            guess = set()
            for f in ins:
                st = os.path.splitext(os.path.basename(f))[0]
                guess |= {st + '.tmp.%d.ll' % i for i in range(9)} | {st + '.tmp.ll'}
            if '-o' in argv:
                guess.add(argv[argv.index('-o') + 1] + '.tmp.ll')
            for x in runs:
                guess.add(x['o'] + '.tmp.ll')
            if clash or guess & set(files):
                return
            s.report(['blang ' + ' '.join(argv)], ('files %r; backend fails at invocation %r' % ({f: content[f].decode() for f in files}, fail), 'exit %r; %s; backend log:\n%s\nstderr %s' % (rc, '; '.join(p), log, e.decode('latin1')[:500])))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def drive(prop):
    def f(s):
        from concurrent.futures import ThreadPoolExecutor, wait, FIRST_COMPLETED
        n = 0
        os.mkdir(s.tmp + '/bin')
        open(s.tmp + '/bin/clang', 'w').write(FAKE)
        os.chmod(s.tmp + '/bin/clang', 0o755)
        time.sleep(.2)
        if prop == 'C25':
            full(s)
        with ThreadPoolExecutor(8) as ex:
            pend = set()
            t = time.time()
            while not s.found and time.time() < min(s.end, t + 120):
                while len(pend) < 16:
                    n += 1
                    pend.add(ex.submit(scenario, s, prop, random.Random(s.seed * 7717 + n)))
                done, pend = wait(pend, timeout=5, return_when=FIRST_COMPLETED)
                for x in done:
                    x.result()
    return f

def full(s):
    """writes that fail"""
    for argv in (['f.b', '--emit-llvm', '-o', '/dev/full'], ['f.b', '--emit-llvm', '-o', 'no/such/dir/x.ll'], ['f.b', '-c', '-o', 'no/such/x.o'], ['f.b', '-o', 'no/such/x'], ['f.b', '-S', '-o', 'no/such/x.s']):
        d = tempfile.mkdtemp(dir=s.tmp)
        open(d + '/f.b', 'w').write('main() return(0);')
        rc, o, e = s.tool([s.tmp + '/blang', *argv, '-v'], d, 20)
        if rc != 1 or not e.strip() or b'generated' in o:
            s.report(['blang ' + ' '.join(argv)], ('a write that fails is reported', 'exit %r %r %r' % (rc, o, e)))
        shutil.rmtree(d, ignore_errors=True)

C23, C24 = drive('C23'), drive('C24')
C25 = drive('C25')

def C05(s):
    """the storage of a string constant: exactly its bytes and one zero byte"""
    import re
    d = tempfile.mkdtemp(dir=s.tmp)
    esc = {0: '*0', 10: '*n', 9: '*t', 13: '*r', 42: '**', 39: "*'", 34: '*"', 123: '*(', 125: '*)'}
    r = random.Random(s.seed)
    strs = [b'', b'\0', b'a\0', b'a\0\0', b'ab\0\0\0', b'\0\0', b'\0a', b'a\0b', b'a' * 300 + b'\0', bytes(range(256)), b'\xff', b'\xff\0', b' ', b'a ', b'\n\n', b'***', b'/* a */', b"'", b'{}', b'%s\\n', b'\\00']
    strs += [bytes(r.choice([0, 0, 65, 66, 255, 128, 10, 34, 42, 92, 32, r.randrange(256)]) for _ in range(r.randrange(12))) for _ in range(60)]
    for where in range(4):
        for b in strs:
            if s.found or time.time() > s.end:
                break
            t = '"' + ''.join(esc.get(c, chr(c)) for c in b) + '"'
            src = ['g %s; main() {}' % t, 'main() { auto x; x = %s; }' % t, 'main() { printf(%s, 1); }' % t, 'v[] 1, %s, 2; main() { %s; return(%s); }' % (t, t, t)][where]
            open(d + '/f.b', 'wb').write(src.encode('latin1'))
            rc, o, e = s.tool([s.tmp + '/blang', 'f.b', '--emit-llvm', '-o', 'f.ll'], d)
            s.count += 1
            if rc != 0:
                s.report([src], ('a program', 'rejected: %r' % (o + e)))
                break
            got = []
            for m in re.finditer(r'constant \[\d+ x i8\] (?:c"([^"]*)"|\[([^\]]*)\]|zeroinitializer)', open(d + '/f.ll', encoding='latin1').read()):
                if m.group(1) is not None:
                    got.append(re.sub(rb'\\([0-9A-Fa-f]{2})', lambda k: bytes([int(k.group(1), 16)]), m.group(1).encode('latin1')))
                elif m.group(2) is not None:
                    got.append(bytes(int(x.split()[-1]) & 255 for x in m.group(2).split(',')))
                else:
                    got.append(None)
            want = [b + b'\0'] * (3 if where == 3 else 1)
            if None not in got and got and got != want:
                s.report([src], ('string storage %r' % want, 'got %r' % got))
