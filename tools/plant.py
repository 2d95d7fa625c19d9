#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description (python dict file): id, property, needs, breaks,
edits [(file, old, new)], files {name: text}, expect (output) or reject/script."""
import json, os, subprocess, sys, shutil
R, V = '/repo', '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
# exit 0: behaves as specified
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here"/*.b "$work"
cd "$work" || exit 2
'''
def plant(s):
    d = '%s/seeded/%s' % (V, s['id'])
    if os.path.exists(d) and '-f' not in sys.argv:
        return
    assert not sh('git -C /repo status --short').stdout.strip(), 'dirty'
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
    first = sh('git -C /repo log --format=%H --grep=^fix: --invert-grep -1').stdout.strip()
    try:
        for f, old, new in s['edits']:
            t = open(R + '/' + f).read()
            if t.count(old) != 1:
                print(s['id'], 'edit matches', t.count(old), repr(old)); return
            open(R + '/' + f, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        # the lines changed must be the original's
        orig = False
        f = None
        for l in diff.split('\n'):
            if l.startswith('--- a/'): f = l[6:]; src = sh('git -C /repo show %s:%s' % (first, f)).stdout.split('\n')
            elif l.startswith('-') and l[1:].strip():
                if l[1:] in src: orig = True
                else: print(s['id'], 'not an original line:', l)
        if not orig: print(s['id'], 'changes no original line'); return
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: print(s['id'], 'does not build', r.stderr[-500:]); return
        os.makedirs(d, exist_ok=True)
        for n, t in s.get('files', {}).items():
            open(d + '/' + n, 'wb').write(t if isinstance(t, bytes) else t.encode('latin1'))
        if 'script' in s: demo = DEMO + s['script']
        elif s.get('reject'): demo = DEMO + '! /repo/blang *.b -o prog -L /repo/runtime >/dev/null 2>&1 && [ ! -e prog ]\n'
        else:
            open(d + '/expected', 'wb').write(s['expect'].encode('latin1'))
            demo = DEMO + '/repo/blang *.b -o prog -L /repo/runtime >/dev/null 2>&1 || exit 1\ntimeout 20 ./prog > out < /dev/null\ncmp -s out "$here/expected"\n'
        open(d + '/demo.sh', 'w').write(demo)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        bad = sh('bash %s/demo.sh' % d, cwd=R).returncode
        r = sh('bash /opt/vp/test.sh /tmp/plant.json')
        t = json.load(open('/tmp/plant.json'))
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    good = sh('bash %s/demo.sh' % d, cwd=R).returncode
    if not bad or good or len(t['passed']) < 235:
        print(s['id'], 'REJECTED: demo with patch', bad, 'without', good, 'tests', len(t['passed']), [x for x in t['failed']][:5])
        shutil.rmtree(d)
    else: print(s['id'], 'ok')
for f in sys.argv[1:]:
    if f.startswith('-'): continue
    for s in eval(open(f).read()): plant(s)
