#!/usr/bin/env python3
"""Decides a property of the Go code: proves the contracts of its functions; if an obligation
fails, looks for a failing input on the real code."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from claimed import FNS, PART, NEED, BOUNDED, TERM
REPO = os.environ.get('BLANG_REPO', '/repo')
TRUST = ['go/ssa (x/tools) translates the Go sources faithfully; gc compiles them according to the language',
         'gover: generation of the obligations (gover/*.go)',
         'z3 and cvc5',
         'contracts assumed for the standard library and for the constructors of llir/llvm (gover/extern.go, gover/llir.go)',
         'llir prints the IR it was given and clang compiles it faithfully']
ASSUME = ['memory is not exhausted: allocation succeeds, the Go stack suffices, lengths stay below 2^62',
          'a reader that has reported the end of the file or an error keeps reporting it',
          'the recursive definitions of the specification are consistent: the loops and recursive calls they describe end (proved as C21)']

def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, _ = p.communicate()
        return 'timeout', o.decode('utf8', 'replace')

def search(prop, seconds, seed, out):
    rc, o = run([sys.executable, '-B', V + '/replay/search.py', prop, str(seconds), str(seed), out], seconds + 170, env=dict(os.environ, BLANG_REPO=REPO))
    note = o.strip().split('\n')[-1][:400]
    return (True if rc == 1 and os.path.exists(out) else False if rc == 0 else None), note

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif.go.')
    try:
        code = check(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)

def reach(f, gone):
    out, seen = [], set()
    def up(g):
        for c in gone.get(g) or []:
            if c in gone:
                if c not in seen:
                    seen.add(c)
                    up(c)
            elif c not in out:
                out.append(c)
    up(f)
    return out

def check(prop, tier, seed, tmp, t0):
    env = dict(os.environ, GOFLAGS='-mod=mod -buildvcs=false', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off')
    shutil.copytree(V + '/gover', tmp + '/gover')
    failed, undec, reps, calls, secs_ = [], [], {}, 0, 0.0
    own, need, (part, tags) = set(FNS[prop]), list(NEED[prop]), PART.get(prop, ([], set()))
    rc, o = run(['go', 'build', '-o', tmp + '/bin', '.'], 300, cwd=tmp + '/gover', env=env)
    if rc != 0:
        raise SystemExit('gover does not build: ' + o[-2000:])
    todo = [f for f in NEED[prop] if f[0] != '(']
    # a second attempt where an obligation may have timed out on a busy machine
    for limit in (200, 120):
        rc, o = run([tmp + '/bin', '-repo', REPO, '-spec', tmp + '/gover/spec', '-fn', ','.join(todo), '-limit', '%ds' % limit, '-json', tmp + '/o.json'] + (['-term'] if prop in TERM else []), limit + 40, cwd=tmp, env=env)
        failed, undec = [], []
        try:
            rep = json.load(open(tmp + '/o.json'))
            os.unlink(tmp + '/o.json')
            calls += rep['solver_calls']
            secs_ += rep['solver_s']
            # functions the source does not have any more: their callers stand in for them
            gone = rep.get('absent') or {}
            for f in list(need):
                if f in gone:
                    need.remove(f)
                    for c in reach(f, gone):
                        own.add(c)
                        if c not in need:
                            need.append(c)
            for r in rep['reports']:
                r['Obs'] = r['Obs'] or []
                if r['Function'][0] != '(' or r['Function'] not in reps:   # the second attempt does not see all of it
                    reps[r['Function']] = r
        except (OSError, ValueError):
            undec.append('the verifier gave no report: ' + o[-1500:])
        again = []
        for f in need:
            r = reps.get(f)
            if r is None:
                if not undec:
                    undec.append(f + ': not verified')
                again.append(f)
                continue
            bad = [x for x in r['Obs'] if not x['OK']]
            if f not in own:
                bad = [x for x in bad if not x.get('Tags') or tags & set(x['Tags'])]
            if f[0] == '(':
                pass
            elif not r['Obs'] or not r['Paths']:
                undec.append(f + ': no obligations were generated')
                again.append(f)
            elif bad:
                again.append(f)
            failed += [(f, x) for x in bad]
        if not again:
            break
        todo = [f for f in again if f[0] != '(']
        if not todo:
            break
    rep = dict(solver_calls=calls, solver_s=secs_)
    funcs, obl, dis = {}, 0, 0
    for f, r in sorted(reps.items()):
        obs = r['Obs'] if f in own else [x for x in r['Obs'] if not x.get('Tags') or tags & set(x['Tags'])]
        kinds = {}
        for x in obs:
            kinds[x['Kind']] = kinds.get(x['Kind'], 0) + 1
        good = sum(1 for x in obs if x['OK'])
        obl += len(obs)
        dis += good
        funcs[f] = dict(obligations=len(obs), discharged=good, kinds=kinds, paths=r['Paths'], loops_cut=r['Cuts'],
                        contracts_used=r['Called'], inlined=r['Inlined'], wall_s=round(r['Wall'], 2))
        if f not in own:
            funcs[f]['counted'] = 'obligations tagged ' + ', '.join(sorted(tags))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=obl, discharged=dis, functions=funcs, functions_under_contract=len(funcs),
                            back_end='z3-new (incremental) with cvc5 as fallback, after rewriting to normal form',
                            solver_calls=rep['solver_calls'], solver_s=round(rep['solver_s'], 2),
                            checker_cmd='gover -repo %s -fn %s' % (REPO, ','.join(f for f in NEED[prop] if f[0] != '(')), trusted_base=TRUST),
              assumptions=list(ASSUME), violations=0)
    d = V + '/evidence/replay'
    os.makedirs(d, exist_ok=True)
    path = '%s/%s.txt' % (d, prop)
    inp = tmp + '/input.txt'
    proved = not failed and not undec
    secs = (25 if tier == 'quick' else 400) if proved else int(min(240, 720 - (time.time() - t0)))
    hit, note = search(prop, secs, seed, inp)
    ev['coverage']['bounded'] = dict(what=BOUNDED.get(prop, 'nothing rests on it: cross-check of the contracts'), how='programs run on the real compiler and compared with a reference interpreter, %d s' % secs, result=note)
    code = 0
    if proved and not hit:
        print('%s: %d obligations of %d functions discharged; bounded: %s' % (prop, obl, len(funcs), note))
    else:
        code = 1
        ev['violations'] = max(1, len(failed))
        with open(path, 'w') as f:
            f.write('property %s\n' % prop)
            if hit:
                f.write(open(inp).read())
            for fn, x in failed:
                f.write('failed obligation: %s: %s: %s at %s %s\n   path: %s\n   verifier: %s\n' % (fn, x['Kind'], x['Desc'], x.get('Pos'), x.get('Tags'), ' ; '.join(x.get('Trace') or [])[:3000], (x.get('Norm') or '')[:3000]))
            for u in undec:
                f.write('undischarged: %s\n' % u)
        seen = set()
        for fn, x in failed:
            k = '%s: %s: %s at %s' % (fn, x['Kind'], x['Desc'], x.get('Pos'))
            if k not in seen and len(seen) < 6:
                seen.add(k)
                print('failed obligation: ' + k[:600])
        for u in undec[:5]:
            print('undischarged: ' + u[:600])
        print('replay: ' + note)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if hit else ' no-failing-input-found'))
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(V + '/evidence/%s.json' % prop, 'w') as f:
        json.dump(ev, f, indent=1)
    return code

main()
