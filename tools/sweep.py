#!/usr/bin/env python3
"""sweep.py FILE[:FUNCTION,...] [KIND...] -- CHECK...: single-site mutants of a source file; prints those no check reports.
A development aid: what survives is either equivalent, outside the properties, or a gap."""
import sys, os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
i = a.index('--')
(spec, *kinds), checks = a[:i], a[i + 1:]
name, _, funcs = spec.partition(':')
src = open('/repo/' + name).read()
spans = []
for m in re.finditer(r'^(?:static |HMAC\w+ |PyObject \*|int |void |ssize_t |PyMODINIT_FUNC )[^;{}]*?\b(\w+)\(', src, re.M):
    o = src.find('\n{', m.end())
    sc = src.find(';', m.end())
    if o < 0 or (0 <= sc < o):
        continue
    e = src.find('\n}', o)
    if not funcs or any(re.fullmatch(f, m.group(1)) for f in funcs.split(',')):
        spans.append((m.group(1), o, e))
M = []
def mut(kind, lo, hi, new, fn):
    if not kinds or kind in kinds:
        M.append((kind, lo, hi, new, fn))
for fn, lo, hi in spans:
    b = src[lo:hi]
    def every(kind, pat, rep, flags=0):
        for m in re.finditer(pat, b, flags):
            n = rep(m) if callable(rep) else m.expand(rep)
            if n != m.group(0):
                mut(kind, lo + m.start(), lo + m.end(), n, fn)
    every('ret', r'return\( -1 \)', 'return( 1 )')
    every('ret0', r'return\( 1 \)', 'return( 0 )')
    every('test', r'!= 1 \)', '== -1 )')
    every('test', r'!= 1 \)', '== 0 )')
    every('test', r'!= 0 \)', '== 1 )')
    every('goto', r'goto on_error;', 'return( -1 );')
    every('free', r'(?<=\n)[\t ]*\w*(?:free|DecRef|close)\([^;{}]*\);', '', re.S)
    every('assign', r'(?<=\n)[\t ]*[^\n;={}()]*(?:\([^\n;={}]*\))?[^\n;={}]*[-+^|&]?= [^;{}()]*;', '')
    every('rel', r'(?<= )(<=|>=|<|>|==)(?= )', lambda m: {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!='}[m.group(1)])
    every('const', r'(?<![\w"%.])(\d+)(?![\w"])', lambda m: str(int(m.group(1)) + 1))
    every('neg', r'!= NULL', '== NULL')
    every('neg', r'== NULL', '!= NULL')
    every('call', r'(?<=\n)[\t ]*[A-Za-z_]\w*\(\s[^;{}]*\);', '', re.S)
def run(m):
    kind, lo, hi, new, fn = m
    line = src.count('\n', 0, lo) + 1
    d = tempfile.mkdtemp(prefix='sweep.')
    try:
        r = d + '/repo'
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('.git', 'tests', 'documents', '*.o', 'ossfuzz', 'msvscpp'))
        open(r + '/' + name, 'w').write(src[:lo] + new + src[hi:])
        out = []
        for c in checks:
            x = subprocess.run(['timeout', '600', './check', c], cwd='/verif', env=dict(os.environ, HSA_REPO=r, HSA_SERIAL='1', HSA_EVIDENCE=d), capture_output=True, text=True)
            out.append('%s=%d' % (c, x.returncode))
            if x.returncode == 1:
                break
            u = re.search(r'undecided=(\d+)', x.stdout)
            if u and u.group(1) != '0':
                out[-1] += '(u%s)' % u.group(1)
        return (not out[-1].endswith('=1'), '%s:%d %s [%s] %r -> %r: %s' % (name, line, fn, kind, re.sub(r'\s+', ' ', src[lo:hi])[:90], new, ' '.join(out)))
    finally:
        shutil.rmtree(d)
print('%d mutants' % len(M), flush=True)
k = 0
with ThreadPoolExecutor(8) as ex:
    for missed, t in ex.map(run, M):
        if missed:
            print(t, flush=True)
            k += 1
print('%d of %d survive' % (k, len(M)))
