#!/usr/bin/env python3
"""Development tool (no check uses it): make and confirm planted bugs.
   seedtool.py confirm ID      scratch copy: builds, existing tests, demo before and after
   seedtool.py check ID        apply the patch to /repo, run the property's quick check, undo
   in Python: plant(id, property, file, [(old, new)...], demo, needs, breaks)"""
import subprocess, sys, os, json, shutil, tempfile
V = '/verif/seeded/'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
def plant(i, prop, edits, demo, needs, breaks, files=None):
    d = V + i; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed'); sh('git -C /repo archive HEAD | tar x -C %s' % w); sh('git init -q . && git add -A && git -c user.name=a -c user.email=a@a commit -qm a', cwd=w)
    for f, a, b, *n in edits:
        p = w + '/' + f; s = open(p, newline='').read()
        if '\r\n' in s: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
        assert s.count(a) == (n[0] if n else 1), (f, s.count(a), a)
        open(p, 'w', newline='').write(s.replace(a, b))
    r = sh('git diff', cwd=w); open(d + '/patch.diff', 'w', newline='').write(subprocess.run('git diff', shell=True, cwd=w, capture_output=True).stdout.decode('latin-1') if 0 else r.stdout)
    subprocess.run('git diff > %s/patch.diff' % d, shell=True, cwd=w)
    shutil.rmtree(w)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + demo); os.chmod(d + '/demo.sh', 0o755)
    for n, t in (files or {}).items(): open(d + '/' + n, 'w').write(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    return confirm(i)
def cdemo(code, lang='c', args=''):
    """a demonstration that links the library; code may use fail(msg)"""
    return '''D="$(cd "$(dirname "$0")" && pwd)"; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cat > "$T/d.c" <<'EOF'
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
%s
EOF
gcc -O1 -w -Isrc -IHealpixC "$T/d.c" -o "$T/d" %s src/libsatskymap.a -lm || exit 2
"$T/d"
''' % (code, args)
def confirm(i):
    """in /repo itself (paths are fixed): must be clean"""
    d = V + i
    assert not sh('git -C /repo status --short').stdout.strip(), 'dirty'
    out = {}
    try:
        sh('bash /opt/vp/build.sh'); r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300); out['clean'] = r.returncode
        if r.returncode: print(r.stdout[-800:], r.stderr[-800:])
        r = sh('git -C /repo apply %s/patch.diff' % d); assert r.returncode == 0, r.stderr
        r = sh('bash /opt/vp/build.sh'); out['build'] = r.returncode
        if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:])
        r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300); out['patched'] = r.returncode
        print((r.stdout + r.stderr)[-400:])
        if 'HealpixC' in open(d + '/patch.diff', errors='replace').read():
            sh('bash /opt/vp/test.sh /tmp/w/t.json'); t = json.load(open('/tmp/w/t.json')); base = json.load(open('/opt/vp/BASELINE.json'))
            out['tests'] = str(t)[:200]
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    ok = out.get('clean') == 0 and out.get('build') == 0 and out.get('patched') not in (0, None)
    print(i, 'CONFIRMED' if ok else 'BAD', out); return ok
def check(i, tier='quick'):
    d = V + i; p = json.load(open(d + '/meta.json'))['property']
    assert not sh('git -C /repo status --short').stdout.strip(), 'dirty'
    try:
        r = sh('git -C /repo apply %s/patch.diff' % d); assert r.returncode == 0, r.stderr
        r = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=%s python3-vt check.py %s' % (tier, p))
    finally: sh('git -C /repo checkout -- .')
    v = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'failed obl', 'ERROR'))]
    print(i, p, 'CAUGHT' if r.returncode == 1 else 'MISSED rc=%d' % r.returncode, '\n    '.join([''] + [x[:300] for x in v[:2]])); sys.stdout.flush()
if __name__ == '__main__':
    for i in sys.argv[2:] or sorted(os.listdir(V)): (confirm if sys.argv[1] == 'confirm' else check)(i)
