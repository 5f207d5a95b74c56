#!/usr/bin/env python3
"""mkseed.py [ID...]: writes and confirms the planted bugs described in tools/seeds/*.py"""
import sys, os, subprocess, shutil, tempfile, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, 'tools', 'seedkit')
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=600, **k)
def mine(r, diff):
    """The first removed line that one of our own commits added."""
    import re
    f = None; n = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)); continue
        if f and l.startswith('-') and not l.startswith('---'):
            b = sh('git blame -s -L%d,%d HEAD -- %s' % (n, n, f), r).stdout.split()[0]
            if not b.startswith('^'): return '%s:%d %s' % (f, n, b)
        if l.startswith((' ', '-')) and not l.startswith('---'): n += 1
    return None
def make(sid, s):
    base = tempfile.mkdtemp(prefix='seed.')
    r = os.path.join(base, 'repo')
    try:
        shutil.copytree('/repo', r, symlinks=True)
        sh('git checkout -q -- . && git clean -qfd', r)
        if 'patch' in s:
            q = subprocess.run(['git', 'apply', '-'], cwd=r, input=s['patch'], text=True, capture_output=True)
            if q.returncode: return 'patch: ' + q.stderr
        for e in s.get('edits', []):
            f, old, new = e[:3]
            p = os.path.join(r, f); t = open(p).read(); n = t.count(old)
            if n == 0 or (n > 1 and len(e) < 4): return '%s: %d occurrences of %r' % (f, n, old[:50])
            if len(e) > 3 and e[3] != 'all':
                ix = -1
                for _ in range(e[3] + 1): ix = t.index(old, ix + 1)
                t = t[:ix] + new + t[ix + len(old):]
            else: t = t.replace(old, new)
            open(p, 'w').write(t)
        d = os.path.join(V, 'seeded', sid)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/patch.diff', 'w').write(sh('git diff', r).stdout)
        w = mine(r, open(d + '/patch.diff').read())
        if w: return 'changes a line of our own commits: ' + w
        for f in s.get('kit', ['buildlib.sh', 'stubs.c', 'libcerror.h', 'hm.py']): shutil.copy(os.path.join(KIT, f), d)
        for n, t in s.get('files', {}).items(): open(os.path.join(d, n), 'w').write(t.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(s['demo'].lstrip('\n')); os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        elsewhere = os.path.join(base, 'x'); shutil.copytree(d, elsewhere)
        q = sh('bash %s/demo.sh' % elsewhere, r); bad = (q.returncode, (q.stdout + q.stderr)[-400:])
        sh('git checkout -q -- .', r)
        q = sh('bash %s/demo.sh' % elsewhere, r); good = (q.returncode, (q.stdout + q.stderr)[-400:])
        if good[0] != 0: return 'demo fails on the unchanged tree: %r' % (good,)
        if bad[0] == 0: return 'demo passes with the patch: %r' % (bad,)
        if bad[0] == 2: return 'demo does not build with the patch?: %r' % (bad,)
        return 'ok (%d: %s)' % (bad[0], bad[1].strip()[-120:])
    finally:
        shutil.rmtree(base)
S = {}
for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
    ns = {}; exec(open(f).read(), ns); S.update(ns['SEEDS'])
for sid in (sys.argv[1:] or list(S)):
    print(sid, make(sid, S[sid])[:700], flush=True)
