#!/usr/bin/env python3
"""Looks for an input on which the current tree breaks a property whose proof failed.
usage: search.py PROPERTY [seconds] [seed] [outdir]; prints the replay file and exits 1 if one is found."""
import multiprocessing, os, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import bref, gen, directed, special
REPO = os.environ.get('BLANG_REPO', '/repo')

def build(tmp):
    """the compiler and the library, from the current tree, outside of it"""
    env = dict(os.environ, GOFLAGS='-mod=mod -buildvcs=false' if os.path.exists('/x') else '-buildvcs=false', GOPROXY='off', GOTOOLCHAIN='local')
    r = subprocess.run(['go', 'build', '-o', tmp + '/blang', '.'], cwd=REPO, env=env, capture_output=True)
    if r.returncode:
        raise SystemExit('build failed: ' + r.stderr.decode()[:2000])
    shutil.copytree(REPO + '/runtime', tmp + '/runtime', ignore=shutil.ignore_patterns('*.o', '*.a'))
    subprocess.run(['make', '-s', '-B', 'all'], cwd=tmp + '/runtime', capture_output=True, check=True)

class Search:
    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if k != 'inflight'}

    def __init__(self, prop, seconds, seed, out):
        self.prop, self.end, self.seed, self.out = prop, time.time() + seconds, seed, out
        self.tmp = tempfile.mkdtemp(prefix='breplay.')
        self.found = None
        self.count = 0
        self.left = 0
        build(self.tmp)

    def tool(self, args, cwd, timeout=20, **kw):
        p = subprocess.Popen(args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True, **kw)
        try:
            o, e = p.communicate(timeout=timeout)
            return p.returncode, o, e
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, e = p.communicate()
            return 'timeout', o, e

    def compile(self, srcs, d):
        names = []
        for i, s in enumerate(srcs):
            n = 'f%d.b' % i
            with open(d + '/' + n, 'wb') as f:
                f.write(s if isinstance(s, bytes) else s.encode('latin1'))
            names.append(n)
        return self.tool([self.tmp + '/blang', *names, '-o', 'prog', '-L', self.tmp + '/runtime'], d)

    def execute(self, srcs):
        """('out', bytes) or ('rejected', message) or ('bad', what)"""
        d = tempfile.mkdtemp(dir=self.tmp)
        try:
            rc, o, e = self.compile(srcs, d)
            if rc == 'timeout':
                return 'bad', 'the compiler does not terminate'
            if b'panic' in e or b'goroutine' in e or rc == 2:
                return 'bad', 'the compiler crashes: ' + e.decode('latin1')[:400]
            if rc:
                if os.path.exists(d + '/prog'):
                    return 'bad', 'an output was made although an error was reported'
                # a rejection by the backend is a failure of the compiler
                if b'Compilation failed:' in o + e or b'clang' in o + e:
                    return 'backend', (o + e).decode('latin1')[:400]
                return 'rejected', (o + e).decode('latin1')[:200]
            if not os.path.exists(d + '/prog'):
                return 'bad', 'no output was made'
            rc, o, e = self.tool(['./prog'], d, 10)
            if rc == 'timeout':
                return 'bad', 'the program does not terminate; output ' + repr(o[:300])
            if rc and (rc < 0):
                return 'bad', 'the program is killed by signal %d; output %r' % (-rc, o[:300])
            return 'out', o
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def expect(self, srcs, steps=300000):
        try:
            progs = [bref.Parser(s).program() for s in srcs]
        except bref.Reject as e:
            return 'rejected', str(e)
        except RecursionError:
            return None
        for p in progs:
            if p.clash:
                return 'clash', 'a variable is used as a function'
            for n in p.used:
                if n not in ('printf', 'write', 'printd', 'char') and not any(n in q.funcs for q in progs):
                    return None
            for n in list(p.funcs) + list(p.globals):
                if n in ('printf', 'write', 'printd', 'char', 'start', 'exit', 'read', 'nread', 'nwrite', 'lchar', 'flush', 'printo', 'writeb', 'fin', 'fout'):
                    return None
        try:
            return 'out', bref.run(srcs, steps)
        except (bref.Undef, bref.Reject):
            return None

    def differs(self, srcs, want=None):
        if want is None:
            try:
                want = self.expect(srcs)
            except bref.Undef:
                want = None
        if want is None:
            return None
        got = self.execute(srcs)
        self.count += 1
        if want[0] == 'rejected':
            if got[0] == 'rejected':
                return None
            return 'the program should be rejected', repr(got)
        if want[0] == 'clash':
            return None if got[0] in ('rejected', 'backend') else ('the program should not compile: ' + want[1], repr(got))
        if got == want:
            return None
        return 'expected output %r' % want[1][:1500], 'got %s %r' % (got[0], got[1][:1500])

    def report(self, srcs, what):
        if self.found:
            return
        self.found = True
        path = self.out
        with open(path, 'w') as f:
            f.write('property %s fails on this program:\n' % self.prop)
            for i, s in enumerate(srcs):
                f.write('--- file f%d.b (latin-1, escaped)\n%s\n' % (i, (s if isinstance(s, str) else s.decode('latin1')).encode('unicode_escape').decode() if any(ord(c) < 9 or ord(c) > 126 for c in (s if isinstance(s, str) else s.decode('latin1'))) else s))
            f.write('--- %s\n--- %s\n' % what)

    def test(self, srcs, want=None):
        if self.found or time.time() > self.end:
            return
        r = self.differs(srcs, want)
        if r and not self.found:
            r = self.differs(srcs, want)   # again: not a passing failure of the sandbox
            if r:
                self.report(srcs, r)

    # --- batches of functions t0(), t1(), ... in one program
    def batch(self, funs, pre):
        if self.found or time.time() > self.end:
            return
        good = []
        for i, (f, call) in enumerate(funs):
            try:
                w = self.expect([pre + f + 'main() { %s }\n' % call])
            except bref.Undef:
                w = None
            if w is None:
                continue
            if w[0] in ('rejected', 'clash'):
                if i % 4 == 0:
                    self.test([pre + f + 'main() { %s }\n' % call], w)
                continue
            good.append((f, call))
        if not good:
            return
        src = pre + ''.join(f for f, _ in good)
        m = ''
        for i in range(0, len(good), 30):
            m += 'm%d() { %s }\n' % (i, ' '.join(c for _, c in good[i:i + 30]))
        src += m + 'main() { ' + ' '.join('m%d();' % i for i in range(0, len(good), 30)) + ' }\n'
        r = None
        try:
            r = self.differs([src], self.expect([src], 3000000))
        except bref.Undef:
            pass
        if r and not self.found:
            for f, call in good:
                one = [pre + f + 'main() { %s }\n' % call]
                self.test(one)
                if self.found:
                    return
            if self.differs([src], self.expect([src], 3000000)):
                self.report([src], r)

    def job(self, n):
        d = directed.D.get(self.prop, [])
        if n < len(d):
            kind, arg = d[n][:2]
            if kind == 'run':
                self.test(arg)
            elif kind == 'reject':
                self.test(arg, ('rejected', ''))
            elif kind == 'batch':
                self.batch(d[n][2], arg)
            elif kind == 'accept':
                special.accepts(self, arg)
            elif kind == 'lit':
                self.test(arg, ('out', d[n][2]))
            else:
                self.test([directed.strprog(arg)])
        else:
            n -= len(d)
            self.random(self.seed * 1000003 + n, n)

    def random(self, s, n):
        P = self.prop
        kw = {'C07': dict(paren=.05, un=.3, tr=.05, call=.05, big=.1), 'C08': dict(asg=.02, cond=.02, big=.7, tr=.3), 'C09': dict(asg=.6, mem=.5, cond=.05), 'C10': dict(mem=.9, asg=.3, big=.1, cond=.05),
              'C11': dict(call=.6, tr=.3, cond=.05, big=.1), 'C12': dict(cond=.7, tr=.5, paren=.4, big=.1), 'C02': dict(space=.9), 'C06': dict(space=.1)}.get(P, {})
        if P == 'C22':
            return special.wellformed(self, s, n)
        g = gen.Gen(s, **kw)
        if P in ('C07', 'C08', 'C09', 'C10', 'C11', 'C12') or (P in ('C02', 'C03', 'C06', 'C22') and n % 3 == 0):
            self.batch([(g.exprfun(i, g.r.choice([1, 2, 2, 3])), 't%d();' % i) for i in range(25)], gen.PRE)
        elif P in ('C13', 'C14', 'C15', 'C16') or (P in ('C02', 'C06', 'C22') and n % 3 == 1):
            fs = []
            for i in range(12):
                f = g.stmtfun(i, g.r.choice([2, 3, 4, 5]))
                fs.append((f, ''.join('printf("r%%d*n", t%d(%d));' % (i, k) for k in range(3))))
            self.batch(fs, 'tr(x) { printf("t%d ", x); return(x); }\nv[3] 1,0,2;\n')
        elif P in ('C17', 'C18'):
            self.batch([g.autos(i) for i in range(8)], 'other(a,b,c,d,e,f,g) { auto x, v[20], y; x = 0; while (x < 20) { v[x] = 555; x++; } x = y = 777; return(a+g); }\n')
        elif P in ('C19', 'C20', 'C03', 'C04', 'C05', 'C01', 'C02', 'C06', 'C22'):
            self.test(g.decls(1 if P in ('C19', 'C22') else g.r.choice([1, 1, 2, 3])))
        elif P in ('C21', 'C25'):
            k = n % 4
            if k == 0:
                src = gen.PRE + g.exprfun(0) + 'main() t0();'
            elif k == 1:
                src = 'tr(x) return(x); v[3] 1,0,2;\n' + g.stmtfun(0) + 'main() t0(1);'
            elif k == 2:
                src = g.decls()[0]
            else:
                f, c = g.autos(0)
                src = f + 'other(a) ; main() { ' + c + ' }'
            for _ in range(6):
                self.robust(g.mutate(src))

    def robust(self, src):
        """terminates without a crash; on an error there is no output"""
        if self.found or time.time() > self.end:
            return
        d = tempfile.mkdtemp(dir=self.tmp)
        try:
            with open(d + '/f.b', 'wb') as f:
                f.write(src.encode('latin1', 'replace'))
            rc, o, e = self.tool([self.tmp + '/blang', 'f.b', '--emit-llvm', '-o', 'f.ll'], d, 10)
            if rc == 'timeout':
                rc, o, e = self.tool([self.tmp + '/blang', 'f.b', '--emit-llvm', '-o', 'f.ll'], d, 60)
            self.count += 1
            bad = None
            if rc == 'timeout':
                bad = 'the compiler does not terminate'
            elif rc not in (0, 1) or b'goroutine' in e:
                bad = 'the compiler crashes: ' + e.decode('latin1')[:500]
            elif rc == 1 and not (o + e).strip():
                bad = 'no error message'
            elif rc == 0 and not os.path.exists(d + '/f.ll'):
                bad = 'no output and no error'
            elif rc == 1 and os.path.exists(d + '/f.ll'):
                bad = 'output in spite of an error'
            if bad:
                self.report([src], ('the compiler makes an output or reports an error', bad))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def numbers(self):
        n = 0
        while time.time() < self.end and not self.found:
            if self.inflight.acquire(timeout=1):
                yield n
                n += 1

    def run(self):
        self.inflight = threading.Semaphore(24)
        try:
            first = getattr(special, self.prop, None)
            if first:
                first(self)
            if self.prop in directed.D and not self.found:
                nw = 8
                with multiprocessing.Pool(nw, init, (self,)) as pool:
                    for what in pool.imap_unordered(work, self.numbers(), 1):
                        self.inflight.release()
                        self.count += what[0]
                        if what[1]:
                            self.found = True
                            pool.terminate()
                            break
            return self.found
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

S = None
def init(s):
    global S
    S = s
def work(n):
    S.count = 0
    S.job(n)
    return S.count, S.found

if __name__ == '__main__':
    a = sys.argv[1:]
    s = Search(a[0], float(a[1]) if len(a) > 1 else 60, int(a[2]) if len(a) > 2 else 1, a[3] if len(a) > 3 else '/tmp/replay.' + a[0])
    f = s.run()
    print('%s: %d programs, %s' % (a[0], s.count, 'FAILS: see ' + s.out if f else 'no failing input found'))
    sys.exit(1 if f else 0)
