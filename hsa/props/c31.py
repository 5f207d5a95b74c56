"""Races on shared Python objects, decided by a lockset analysis on the IR of the Python module:
every access of a method to its object and to the library context in it is collected together
with the locks held (the interpreter lock, or locks kept in the object) over all paths, states
and argument kinds; the accesses of all methods of a type must have a lock in common, a library
context taken from the object must not be used after other threads could have replaced it, and no
storage of static lifetime may be written while other threads run."""
from ..pyapi import *

LEVEL = 'proof'
ASSUMPTIONS = ['other threads run only while the interpreter lock is released or code of the argument is called', 'bytes objects do not change', 'the library functions keep no shared state (C11)', 'an object that is destroyed is not used by another thread']
MINIMUM = {'common lock': 10, 'context not stale': 10, 'no shared static storage': 40}

def prepare(tier):
    build.compile_all(CFG, 'py')

def tasks(tier):
    t = [('%s context%s' % (a, w), contexts, (a, x)) for a in ALGS for x, w in ((None, ''), ('a\n', ' (short texts)'))]
    return t + [(l, judge, (l, f, a)) for l, f, a in all_tasks() if ' context ' not in l]

def judge(R, label, fn, args):
    T, ends = fn(*args)
    static(R, T)
    R.absorb(T.I)

def static(R, T):
    I = T.I
    bad = I.opts.get('globals', [])
    seen = set()
    for oid, ins, how, exact, path in bad:
        k = (oid, ins)
        if k in seen:
            continue
        seen.add(k)
        R.check('no shared static storage', False, ins.block.func, 'static storage %s %s' % (I.objs[oid].name.lstrip('@'), how), exact=exact, path=path, line=ins.line)
    if not bad:
        R.ok('no shared static storage')

def contexts(R, alg, text):
    acc = []
    for part in ('init', 'update', 'finalize'):
        T, ends = context_ends(alg, part, text)
        acc += [(part,) + a for a in T.I.opts.get('accesses', [])]
        static(R, T)
        R.absorb(T.I)
    common = None
    for a in acc:
        common = a[1] if common is None else common & a[1]
    if common:
        R.ok('common lock', len(acc))
    else:
        # the accesses without the lock that most of the others hold
        n = {}
        for a in acc:
            for l in a[1]:
                n[l] = n.get(l, 0) + 1
        best = max(n, key=lambda l: (n[l], l)) if n else None
        seen = set()
        for part, locks, ins, what, fresh, why, exact, path in acc:
            if best in locks or ins in seen:
                continue
            seen.add(ins)
            R.check('common lock', False, ins.block.func, 'the %s object is %s without %s, which protects it elsewhere: another thread may use it at the same time' % (alg, what, best or 'any lock'), exact=exact, path=path, line=ins.line)
    seen = set()
    for part, locks, ins, what, fresh, why, exact, path in acc:
        if not fresh and ins not in seen:
            seen.add(ins)
            R.check('context not stale', False, ins.block.func, 'the library context of the %s object is %s although %s since it was taken from the object' % (alg, what, why), exact=exact, path=path, line=ins.line)
        elif fresh:
            R.ok('context not stale')
