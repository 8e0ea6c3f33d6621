#!/usr/bin/env python3
"""plant.py SPEC.py [ID ...]: build and confirm planted bugs in a scratch copy of /repo; those confirmed go to /verif/seeded.

SPEC.py defines BUGS: list of dict(id, property, edits=[(file, old, new)], demo=python text, needs, breaks).
"""
import json, os, shutil, subprocess, sys, tempfile

REPO, OUT = '/repo', '/verif/seeded'
SH = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def original_lines(diff):
    """How many removed lines come from the original repository."""
    base = set(open('/tmp/base_commits').read().split()) if os.path.exists('/tmp/base_commits') else None
    n, cur, line = 0, None, 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
        elif l.startswith('@@'):
            line = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-') and not l.startswith('---'):
            b = sh('git blame -l -s -L%d,%d HEAD -- %s' % (line, line, cur), cwd=REPO).stdout
            c = b.split()[0].lstrip('^')
            anc = sh('git merge-base --is-ancestor %s e39a56a' % c, cwd=REPO).returncode == 0
            n += anc and l[1:].strip() != ''
            line += 1
        elif l.startswith(' '):
            line += 1
    return n


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    for b in ns['BUGS']:
        if want and b['id'] not in want:
            continue
        w = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
        try:
            work = os.path.join(w, 'repo')
            shutil.copytree(REPO, work, symlinks=True)
            bad = None
            for f, old, new in b['edits']:
                p = os.path.join(work, 'src/oidcmsg', f)
                t = open(p).read()
                if t.count(old) != 1:
                    bad = 'old text occurs %d times in %s: %r' % (t.count(old), f, old[:60])
                    break
                open(p, 'w').write(t.replace(old, new))
            if bad:
                print(b['id'], 'BAD', bad); continue
            diff = sh('git diff', cwd=work).stdout
            n = original_lines(diff)
            d = os.path.join(w, 'demo'); os.mkdir(d)
            open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
            open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
            r0 = sh('bash %s/demo.sh' % d, cwd=REPO)
            r1 = sh('bash %s/demo.sh' % d, cwd=work)
            t = sh('PYTHONPATH=%s/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3' % work, cwd=work)
            line = t.stdout.strip().splitlines()[-1]
            ok = r0.returncode == 0 and r1.returncode != 0 and n > 0 and 'failed' not in line and 'error' not in line
            print(b['id'], 'OK' if ok else 'BAD', 'clean=%d planted=%d original-lines=%d' % (r0.returncode, r1.returncode, n), line)
            if not ok:
                print(r0.stdout[-600:], '---', r1.stdout[-600:], '---', t.stdout[-800:])
                continue
            o = os.path.join(OUT, b['id'])
            os.makedirs(o, exist_ok=True)
            open(o + '/patch.diff', 'w').write(diff)
            shutil.copy(d + '/demo.sh', o); shutil.copy(d + '/demo.py', o)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(w)


main()
