#!/usr/bin/env python3
"""mutrun.py FILE.py [NAME...]: FILE defines M = [(name, [(path, old, new[, n])...], [checks...])] and optionally QUIET=True.
Applies each to a scratch copy of /repo, compiles the touched files, runs the listed checks and reports the ones that stay
quiet (or, with QUIET, the ones that do not).
An edit may also be (path, function of the text).  With MUTRUN_KEEP=DIR the changed copy is left in DIR and no check is run."""
import atexit, sys, os, subprocess, shutil, tempfile, runpy
ns = runpy.run_path(sys.argv[1])
M, quiet = ns['M'], ns.get('QUIET', False)
want = sys.argv[2:]
bad = 0
# the checks are run from a copy of /verif, so that it can be edited meanwhile
V = tempfile.mkdtemp(prefix='mutv.')
atexit.register(shutil.rmtree, V, True)
for x in ('check', 'hsa', 'stubs', 'known_findings.txt', 'properties.jsonl', 'MANIFEST.json'):
    p = os.path.join('/verif', x)
    (shutil.copytree if os.path.isdir(p) else shutil.copy2)(p, os.path.join(V, x))
for name, edits, checks in M:
    if want and not any(w in name for w in want):
        continue
    d = tempfile.mkdtemp(prefix='mut.')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    try:
        ok = True
        for e in edits:
            if callable(e[1]):
                p = os.path.join(r, e[0])
                t = open(p).read()
                try:
                    u = e[1](t)
                except ValueError as x:
                    print('%-44s EDIT: %s: %s' % (name, e[0], x)); ok = False; break
                if u == t:
                    print('%-44s EDIT: %s unchanged' % (name, e[0])); ok = False; break
                open(p, 'w').write(u)
                continue
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else None
            p = os.path.join(r, f)
            t = open(p).read()
            k = t.count(old)
            if k == 0 or (k > 1 and n is None):
                print('%-44s EDIT: %s has %d occurrences of %r' % (name, f, k, old[:60])); ok = False; break
            if n is not None and n != 'all':
                ix = -1
                for _ in range(n + 1):
                    ix = t.index(old, ix + 1)
                t = t[:ix] + new + t[ix + len(old):]
            else:
                t = t.replace(old, new)
            open(p, 'w').write(t)
        if not ok:
            bad += 1
            continue
        if 'MUTRUN_KEEP' in os.environ:
            shutil.copytree(r, os.path.join(os.environ['MUTRUN_KEEP'], name), symlinks=True)
            continue
        env = dict(os.environ, HSA_REPO=r, HSA_EVIDENCE=os.path.join(d, 'ev'))
        os.makedirs(env['HSA_EVIDENCE'], exist_ok=True)
        out = []
        hit = False
        for c in checks:
            try:
                x = subprocess.run(['./check', c], cwd=V, env=env, capture_output=True, text=True, timeout=900)
                ls = (x.stdout + x.stderr).strip().split('\n')
                v = [l for l in ls if 'VIOLATION' in l]
                und = [l for l in ls if 'undecided=' in l]
                tag = '%s:%d' % (c, x.returncode)
                if und and 'undecided=0' not in und[-1]:
                    tag += '(u%s)' % und[-1].split('undecided=')[1].split()[0]
                out.append(tag)
                if x.returncode == 1: hit = True
                if x.returncode not in (0, 1): out.append(ls[-1][:200])
                if quiet and x.returncode != 0: out.append('\n      '.join(l[:260] for l in ls[-6:]))
            except subprocess.TimeoutExpired:
                out.append(c + ':TIMEOUT')
        if quiet:
            good = all(o.split(':')[1].startswith('0') for o in out if ':' in o[:5])
        else:
            good = hit
        if not good: bad += 1
        print('%-44s %s %s' % (name, 'ok  ' if good else 'BAD ', ' '.join(out)), flush=True)
    finally:
        shutil.rmtree(d)
print('bad', bad)
