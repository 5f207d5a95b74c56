#!/usr/bin/env python3
"""try.py FILE OLD NEW [N] -- CHECK...: run checks on a scratch copy of /repo with one change.
OLD and NEW are literal text ('@path' reads a file); N is which occurrence (default: must be unique; 'all')."""
import sys, os, subprocess, shutil, tempfile
a = sys.argv[1:]
i = a.index('--')
ed, checks = a[:i], a[i + 1:]
d = tempfile.mkdtemp(prefix='try.')
r = os.path.join(d, 'repo')
shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('.git'))
try:
    if ed[0].endswith(('.diff', '.patch')):
        subprocess.run(['git', 'apply', os.path.abspath(ed[0])], cwd=r, check=True)
    else:
        while ed:
            f, old, new = ed[:3]
            ed = ed[3:]
            n = None
            if ed and (ed[0].isdigit() or ed[0] == 'all'):
                n = ed.pop(0)
            p = os.path.join(r, f)
            t = open(p).read()
            old, new = [open(x[1:]).read() if x.startswith('@') else x.encode().decode('unicode_escape') for x in (old, new)]
            k = t.count(old)
            if k == 0 or (k > 1 and n is None):
                sys.exit('%s: %d occurrences' % (f, k))
            if n and n != 'all':
                ix = -1
                for _ in range(int(n) + 1):
                    ix = t.index(old, ix + 1)
                t = t[:ix] + new + t[ix + len(old):]
            else:
                t = t.replace(old, new)
            open(p, 'w').write(t)
    env = dict(os.environ, HSA_REPO=r)
    for c in checks:
        x = subprocess.run(['./check', c], cwd='/verif', env=env, capture_output=True, text=True)
        print('== %s exit %d' % (c, x.returncode))
        print('\n'.join(l[:300] for l in (x.stdout + x.stderr).strip().split('\n')[-8:]))
finally:
    shutil.rmtree(d)
