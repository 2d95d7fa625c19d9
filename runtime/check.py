#!/usr/bin/env python3
"""Checks C26..C29 (the C runtime) with CBMC and llcut.py; see DESIGN.md."""
import sys, os, subprocess, tempfile, shutil, time, json, random, threading, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
R = os.environ.get('VERIF_REPO', '/repo') + '/runtime'
FLAGS = '--no-standard-checks --bounds-check --pointer-check --unwinding-assertions --drop-unused-functions'.split()
WORD = 1 << 64
def signed(x):
    x %= WORD
    return x - WORD if x >> 63 else x

class Task:
    """One function under contract; a list of equivalent encodings is tried in parallel."""
    def __init__(self, name, funcs, harness, variants, unwind, timeout=240):
        self.name, self.funcs, self.harness, self.variants, self.unwind, self.timeout = name, funcs, harness, variants, unwind, timeout

def sources():
    return sorted(os.path.join(R, f) for f in os.listdir(R) if f.endswith('.c'))

def goto_cc(out, harness, defs):
    ok, err = goto_cc1(out, harness, defs + ['-DVERIF_CAST'])
    return (ok, err) if ok else goto_cc1(out, harness, defs)

def goto_cc1(out, harness, defs):
    cmd = ['goto-cc', '-Dlinux', '-I' + R, '-I' + HERE, '-include', HERE + '/stub.h'] + defs + \
          ['--function', 'harness', '-o', out, HERE + '/' + harness] + sources()
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode == 0, (p.stderr + p.stdout)[-800:]

def run_task(t, tmp):
    """returns (verdict, details) with verdict proved / failed / undecided"""
    procs, t0 = [], time.time()
    builds = {}
    for k, (defs, solver) in enumerate(t.variants):
        key = tuple(defs)
        if key not in builds:
            gb = os.path.join(tmp, '%s.%d.gb' % (t.name, k))
            ok, err = goto_cc(gb, t.harness, list(defs))
            if not ok:
                return 'undecided', dict(reason='goto-cc: ' + err), []
            builds[key] = gb
        out = open(os.path.join(tmp, '%s.%d.out' % (t.name, k)), 'w')
        cmd = ['cbmc', builds[key]] + FLAGS + ['--unwind', str(t.unwind)] + solver
        procs.append((subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=tmp, start_new_session=True), out.name, cmd))
    res = ('undecided', dict(reason='timeout'), [])
    left = list(procs)
    while left and time.time() - t0 < t.timeout:
        for p in list(left):
            if p[0].poll() is None:
                continue
            left.remove(p)
            txt = open(p[1]).read()
            m = re.search(r'\*\* (\d+) of (\d+) failed', txt)
            if 'VERIFICATION SUCCESSFUL' in txt and m:
                res = ('proved', dict(obligations=int(m.group(2)), discharged=int(m.group(2)), cmd=' '.join(p[2])), [])
                left = []
                break
            if 'VERIFICATION FAILED' in txt and m:
                bad = re.findall(r'^\[(\S+)\] (.*): FAILURE$', txt, re.M)
                res = ('failed', dict(obligations=int(m.group(2)), discharged=int(m.group(2)) - int(m.group(1)),
                                      cmd=' '.join(p[2])), bad)
                left = []
                break
            if len(left) == 0:
                res = ('undecided', dict(reason=txt[-500:]), [])
        time.sleep(0.02)
    for p in procs:
        try:  # and the solvers it started
            os.killpg(p[0].pid, 9)
        except ProcessLookupError:
            pass
        p[0].wait()
    # vacuity: the end of the harness is reachable
    if res[0] == 'proved':
        gb = os.path.join(tmp, t.name + '.vac.gb')
        goto_cc(gb, t.harness, list(t.variants[0][0]) + ['-DVACUITY'])
        p = subprocess.run(['cbmc', gb] + FLAGS + ['--unwind', str(t.unwind), '--property', 'nothing'], capture_output=True, text=True)
        props = subprocess.run(['cbmc', gb] + FLAGS + ['--unwind', str(t.unwind), '--show-properties', '--json-ui'], capture_output=True, text=True).stdout
        name = None
        for o in json.loads(props):
            for q in o.get('properties', []):
                if q.get('description') == 'vacuity':
                    name = q['name']
        p = subprocess.run(['cbmc', gb] + FLAGS + ['--unwind', str(t.unwind), '--property', str(name)],
                           capture_output=True, text=True, timeout=300)
        if 'VERIFICATION FAILED' not in p.stdout:
            res = ('undecided', dict(reason='contract is vacuous: ' + p.stdout[-300:]), [])
    res[1]['seconds'] = round(time.time() - t0, 2)
    return res

def tasks(prop):
    sat, z3 = [], ['--z3']
    if prop == 'C26':
        out = []
        for f, b, uw in (('printd', 10, 34), ('printo', 8, 34)):
            for sign in ('NEG', 'NONNEG'):
                vs = []
                for mag in (['(-(x))', '(1+~(x))', '(~((x)-1))'] if sign == 'NEG' and b == 10 else ['(-(x))']):
                    d = ['-DFUN=B_' + f, '-DBASE=%d' % b, '-D' + sign, '-DMAG(x)=' + mag]
                    vs.append((d, z3))
                vs.append((vs[0][0], sat))
                out.append(Task('%s.%s' % (f, sign.lower()), [f], 'h_num.c', vs, uw))
        return out
    fs = {'C28': ['write', 'writeb', 'char', 'lchar'], 'C29': ['read', 'nread', 'nwrite', 'exit', 'start']}.get(prop, [])
    return [Task(f, [f], 'h_misc.c', [(['-DCHECK_' + f], sat), (['-DCHECK_' + f], z3)], 10) for f in fs]

# ---------------------------------------------------------------- replay
def hexs(b):
    return b.hex()

def decimal(n):
    return str(signed(n)).encode()
def octal(n):
    return oct(n % WORD)[2:].encode()
def chars(x):
    b = (x % WORD).to_bytes(8, 'big').lstrip(b'\0')
    return b or b'\0'
def fmt_spec(fmt, args):
    out, i, k = b'', 0, 0
    fmt = fmt + b'\0\0'
    while fmt[i] != 0:
        c = fmt[i:i+1]
        i += 1
        if c != b'%':
            out += c
            continue
        d = fmt[i:i+1]
        if d in (b'd', b'o', b'c', b's'):
            if k >= len(args):
                return None
            kind, v = args[k]
            k += 1
            i += 1
            if (d == b's') != (kind == 's'):
                return None
            if d == b'd':
                out += decimal(v)
            elif d == b'o':
                v = signed(v)
                out += (b'-' if v < 0 else b'') + octal(abs(v))
            elif d == b'c':
                out += chars(v)
            else:
                out += v.split(b'\0')[0]
        elif d == b'%':
            out += b'%'
            i += 1
        else:
            out += b'%'
    return out

def words(rnd):
    s = [0, 1, 2, 7, 8, 9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512]
    for k in range(64):
        for d in (-1, 0, 1):
            s.append((1 << k) + d)
    for k in range(20):
        for d in (-1, 0, 1, 5):
            s.append(10 ** k + d)
    for k in range(200):
        s.append(rnd.getrandbits(rnd.randint(1, 64)))
    for a in range(1, 9):           # byte patterns for write
        for pat in range(256):
            pass
    for pat in range(256):
        v = 0
        for k in range(8):
            v = v << 8 | ((65 + k) if pat >> k & 1 else 0)
        s.append(v)
        v = 0
        for k in range(8):
            v = v << 8 | ((200 + k) if pat >> k & 1 else 0)
        s.append(v)
    s = [signed(x) for x in s] + [signed(-x) for x in s]
    return list(dict.fromkeys(s))

def vectors(prop, seed, more=()):
    """(request, check) pairs; check(ret, events) says what is wrong or None"""
    rnd = random.Random(seed)
    out = []
    def stream(line, want, fout):
        def chk(ret, ev):
            got = b''
            for e in ev:
                if e[0] != 'w':
                    return 'unexpected system call ' + e
                fd, h = e[1:].split(':')
                if int(fd) != fout + 1:
                    return 'written to file %s instead of %d' % (fd, fout + 1)
                got += bytes.fromhex(h)
            if got != want:
                return 'wrote %r instead of %r' % (got, want)
        out.append((line, chk))
    W = words(rnd)
    if prop == 'C26':
        for f, n in more:   # counterexamples of the verifier
            stream('%s 0 %d' % (f, n), (decimal if f == 'printd' else octal)(n), 0)
            stream('%s 1 %d' % (f, n), (decimal if f == 'printd' else octal)(n), 1)
        for fout in (0, 1):
            for n in W:
                stream('printd %d %d' % (fout, n), decimal(n), fout)
                stream('printo %d %d' % (fout, n), octal(n), fout)
    if prop == 'C28':
        for fout in (0, 1):
            for n in W:
                stream('write %d %d' % (fout, n), chars(n), fout)
                stream('writeb %d %d' % (fout, n), bytes([n & 255]), fout)
        buf = bytes(range(256))
        def eq(line, want_ret, want_ev):
            def chk(ret, ev):
                if want_ret is not None and ret != want_ret:
                    return 'returned %d instead of %d' % (ret, want_ret)
                if ev != want_ev:
                    return 'did %s instead of %s' % (ev, want_ev)
            out.append((line, chk))
        for base in (0, 100, 255, 1 << 33, -(1 << 32)):
            for i in range(256):
                eq('char 0 %s %d %d' % (buf.hex(), base, i - base), buf[i], [])
        for base in (0, 7, 1 << 33, -(1 << 32)):
            for i in range(0, 24):
                for c in (0, 1, 65, 127, 128, 255, 256, 0x4142, -1, signed(rnd.getrandbits(64))):
                    b = bytearray(buf[40:64])
                    h = b.hex()
                    b[i] = c & 255
                    eq('lchar 0 %s %d %d %d' % (h, base, i - base, c), None, ['m' + b.hex()])
    if prop == 'C29':
        def eq(line, want_ret, want_ev):
            def chk(ret, ev):
                if want_ret is not None and ret != want_ret:
                    return 'returned %d instead of %d' % (ret, want_ret)
                if ev != want_ev:
                    return 'made the system calls %s instead of %s' % (ev, want_ev)
            out.append((line, chk))
        for b in range(256):
            eq('read 0 1 %d' % b, b if b < 128 else 0, ['c0:0:0:1'])
        for r in (0, -1, -4, -9, -11):
            for b in (0, 65, 255):
                eq('read 0 %d %d' % (r, b), 4, ['c0:0:0:1'])
        for k in range(300):
            f, b, n, r = rnd.choice([0, 1, 2, 3, -1, 1000]), signed(rnd.getrandbits(64)), rnd.choice([0, 1, 5, 4096, signed(rnd.getrandbits(64))]), rnd.choice([0, 1, 5, -9, -1, signed(rnd.getrandbits(64))])
            for fn, nr in (('nread', 0), ('nwrite', 1)):
                for fout in (0, 1):
                    eq('%s %d %d %d %d %d' % (fn, fout, f, b, n, r), r, ['c%d:%d:%d:%d' % (nr, f, b, n)])
        def ex(line, code):
            def chk(ret, ev):
                m = re.match(r'c(60|231):(-?\d+):', ev[0]) if len(ev) == 1 else None
                if not m or int(m.group(2)) & 255 != code & 255:
                    return 'made the system calls %s instead of exit(%d)' % (ev, code)
            out.append((line, chk))
        for fout in (0, 1):
            ex('exit %d' % fout, 0)
        for n in W[:400]:
            ex('start 0 %d' % n, n)
    if prop == 'C27':
        frag = [b'a', b'%d', b'%o', b'%c', b'%s', b'%%', b'%', b'%x', b'%q', b'hello', b'\xff', b'\n', b'0', b'%5', b'%D', b'\x80%', b'd', b's', b'%u']
        NUM = [0, 1, -1, 7, 8, 65, 255, 256, 0x4142, (1 << 63) - 1, -(1 << 63), -8, 10, 100, 0x4100, 12345678901]
        STR = [b'', b'x', b'hello', b'%d%s', b'\xe4\xf6', b'a b', b'%']
        cases = [[f] for f in frag] + [[f, g] for f in frag for g in frag] + [[b'%s', a, b] for a in frag for b in frag]
        for k in range(1500):
            cases.append([rnd.choice(frag) for _ in range(rnd.randint(0, 8))])
        for k, c in enumerate(cases):
            fmt = b''.join(c)
            conv = re.findall(rb'%(?:([docs])|%|)', fmt)
            args = []
            i = 0
            f2 = fmt + b'\0'
            while f2[i] != 0:
                if f2[i] == 37 and f2[i + 1] in b'docs':
                    args.append(('s', rnd.choice(STR)) if f2[i + 1] == ord('s') else ('d', rnd.choice(NUM)))
                    i += 2
                elif f2[i] == 37 and f2[i + 1] == 37:
                    i += 2
                else:
                    i += 1
            if len(args) > 7:
                continue
            want = fmt_spec(fmt, args)
            if want is None:
                continue
            fout = k & 1
            stream('printf %d %s00 %s' % (fout, fmt.hex(), ' '.join('%s %s' % (t, v if t == 'd' else v.hex() + '00') for t, v in args)), want, fout)
    return out

def replay(prop, tmp, seed, only=None, more=()):
    exe = os.path.join(tmp, 'replay')
    cmd = ['gcc', '-O', '-ffreestanding', '-w', '-c', '-I' + R, '-include', HERE + '/stub.h', '-Dmain=verif_main']
    objs = []
    for s in sources():
        o = os.path.join(tmp, os.path.basename(s) + '.o')
        c = list(cmd)
        p = subprocess.run(c + ['-o', o, s], capture_output=True, text=True)
        if p.returncode != 0:
            return None, 'compilation of the runtime fails: ' + p.stderr[-300:]
        # the entry point gets another name, so that the C library's can be linked
        subprocess.run(['objcopy', '--redefine-sym', '_start=b.start', o])
        objs.append(o)
    o = os.path.join(tmp, 'replay.o')
    p = subprocess.run(['gcc', '-O', '-w', '-c', '-o', o, HERE + '/replay.c'], capture_output=True, text=True)
    subprocess.run(['objcopy', '--redefine-sym', '_start=b.start', o])
    p = subprocess.run(['gcc', '-o', exe, o] + objs, capture_output=True, text=True)
    if p.returncode != 0:
        return None, 'link: ' + p.stderr[-500:]
    vs = vectors(prop, seed, more) if only is None else only
    p = subprocess.run([exe], input='\n'.join(v[0] for v in vs) + '\n', capture_output=True, text=True, timeout=200)
    lines = p.stdout.split('\n')
    for k, (line, chk) in enumerate(vs):
        if k >= len(lines) or lines[k] == '':
            return (line, 'the program died'), None
        w = lines[k].split()
        if w[0] == 'CRASH':
            return (line, 'memory outside the object is accessed, or the call does not end'), None
        bad = chk(int(w[0]), w[1:])
        if bad:
            return (line, bad), None
    return False, '%d requests, all as specified' % len(vs)

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif.rt.')
    try:
        ev, code = check(prop, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev.update(property=prop, tier=tier, seed=seed, wall_s=round(time.time() - t0, 2))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    sys.exit(code)

TRUST = ['the inline-assembly system call wrapper (x86_64.h) is replaced by a stub that records the call',
         'CBMC 6.11 with its SAT back end and z3; C semantics of goto-cc for x86-64',
         'gcc compiles the C sources according to their semantics']

def check(prop, tier, seed, tmp):
    failed, funcs, obl, dis, cmds, undec, notes = [], {}, 0, 0, [], [], []
    if prop == 'C27':
        p = subprocess.run(['python3-vt', HERE + '/llcut.py', R], capture_output=True, text=True)
        try:
            r = json.loads(p.stdout)
        except ValueError:
            r = dict(error='llcut.py: ' + p.stderr[-500:])
        if 'error' in r:
            undec.append('b_printf: ' + r['error'])
            obl += 1
        else:
            obl, dis = r['obligations'], r['obligations'] - len(r['failed'])
            for f in r['failed']:
                failed.append(('b_printf', f[0] + ' (' + f[1] + ')\n' + f[2]))
            funcs['b_printf'] = dict(obligations=obl, loops_cut=len(r['inv']), invariants=r['inv'], solver_s=r['solver_s'], queries=r['queries'], back_end='z3 (64-bit vectors, arrays)')
            if r['events'] == 0 or not r['inv']:
                undec.append('b_printf: no obligations were generated')
        cmds.append('python3-vt runtime/llcut.py /repo/runtime')
    done, more = set(), []
    if prop == 'C26':
        # first on the LLVM IR; CBMC decides what that cannot
        p = subprocess.run(['python3-vt', HERE + '/llnum.py', R], capture_output=True, text=True)
        try:
            r = json.loads(p.stdout)
        except ValueError:
            r = {}
        for f, d in r.items():
            if d.get('paths'):
                done.add(f)
                obl += d['obligations']
                dis += d['obligations']
                funcs['b_' + f] = dict(back_end='z3 (64-bit vectors, div10/mod10 uninterpreted with their facts)', **d)
            else:
                more += [(f, n) for n in d.get('inputs', [])]
                notes.append('b_%s: symbolic execution of the IR: %s' % (f, d.get('failed') or d.get('error')))
        cmds.append('python3-vt runtime/llnum.py /repo/runtime')
        if more or any(d.get('failed') for d in r.values()):
            hit, note = replay(prop, tmp, seed, more=more)
            if hit:   # the counterexample fails on the real code
                failed += [('b_' + f, d['failed']) for f, d in r.items() if d.get('failed')]
                obl += len(failed)
    ts = [] if failed else [t for t in tasks(prop) if not (set(t.funcs) <= done)]
    res = [None] * len(ts)
    th = [threading.Thread(target=lambda k=k: res.__setitem__(k, run_task(ts[k], tmp))) for k in range(len(ts))]
    for x in th: x.start()
    for x in th: x.join()
    for t, r in zip(ts, res):
        if r is None:
            r = ('undecided', dict(reason='check died'), [])
        verdict, d, bad = r
        obl += d.get('obligations', 1)
        dis += d.get('discharged', 0)
        if 'cmd' in d: cmds.append(re.sub(r'/tmp/\S*/', '', d['cmd']))
        funcs[t.name] = dict(verdict=verdict, **{k: v for k, v in d.items() if k != 'cmd'})
        if verdict == 'failed':
            for b in bad:
                failed.append((t.name, '%s: %s' % b))
        elif verdict == 'undecided':
            undec.append('%s: %s' % (t.name, d.get('reason')))
    ev = dict(level='proof', coverage=dict(obligations=obl, discharged=dis, checker_cmd='; '.join(cmds) or 'none', functions=funcs,
              trusted_base=TRUST + (['clang -O1 translates printf.c faithfully; z3 decides the conditions',
                                     'b_char, b_write, b_printd, b_printo meet their contracts (checked by C26 and C28)',
                                     'va_arg yields the arguments of the call in order'] if prop == 'C27' else []) +
              (['clang -O1 translates printd.c and printo.c faithfully; write, writeb, nwrite meet their contracts (C28, C29)',
                'facts about division by ten instantiated by llnum.py: x/10 < 10^j iff x < 10^(j+1), x mod 10^k < 10^k, (x/10)/10 = x/100'] if prop == 'C26' else [])),
              assumptions=['machine arithmetic is modelled as 64-bit vectors, nothing is treated as unbounded',
                           'system calls have any result; partial writes are not retried by the runtime and not demanded by the property'],
              violations=0)
    if not failed and not undec:
        # The replay oracle is kept honest on every run: it must agree with the proof.
        hit, note = replay(prop, tmp, seed)
        ev['coverage']['replay_oracle'] = note if not hit else 'DISAGREES: %s' % (hit,)
        if not hit:
            print('%s: %d obligations discharged' % (prop, dis))
            return ev, 0
        failed.append(('replay', 'the contracts hold but the running code differs'))
    hit, note = replay(prop, tmp, seed, more=more)
    if hit is False and not failed:
        # nothing is refuted, the proof could not be redone
        pass
    d = VERIF + '/evidence/replay'
    os.makedirs(d, exist_ok=True)
    path = '%s/%s.txt' % (d, prop)
    with open(path, 'w') as f:
        f.write('property %s\nfailed obligations:\n' % prop)
        for t, b in failed:
            f.write('  %s: %s\n' % (t, b))
        for u in notes:
            f.write('  %s\n' % u)
        for u in undec:
            f.write('  undischarged: %s\n' % u)
        if hit:
            f.write('failing input (request to runtime/replay.c): %s\n  %s\n' % hit)
        elif note:
            f.write('replay: %s\n' % note)
    ev['violations'] = max(1, len(failed))
    for u in notes:
        print(u)
    for t, b in failed[:5]:
        print('failed obligation: %s: %s' % (t, b.split('\n')[0]))
    for u in undec[:5]:
        print('undischarged: %s' % u)
    if hit:
        print('failing input: %s: %s' % hit)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    return ev, 1

main()
