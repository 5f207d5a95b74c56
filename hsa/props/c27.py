"""Exceptions of the Python module, decided on its IR: the pending exception is part of the state;
every CPython and library call may fail, every argument may be something else than bytes, and at
each exit the result is compared with the exception pending and with what failed."""
from ..pyapi import *

LEVEL = 'proof'
ASSUMPTIONS = ['the CPython functions follow their documented contracts and raise an exception when they fail', 'the library functions behave as C01-C10 establish']
MINIMUM = {'failure raises': 400, 'success raises nothing': 30, 'other objects refused': 50, 'failures reported': 400, 'no crash': 100, 'no failure without cause': 30}
MEMORY = ('oob', 'null', 'wild', 'uninit', 'format', 'rowrite', 'diverge', 'recursion', 'uaf')

def prepare(tier):
    build.compile_all(CFG, 'py')

def tasks(tier):
    return [(l, judge, (l, f, a)) for l, f, a in all_tasks() if not l.startswith('error translation')]

def judge(R, label, fn, args):
    T, ends = fn(*args)
    I = T.I
    for e in ends:
        one_end(R, T, e)
    n = 0
    for F in I.findings:
        if F.kind in MEMORY:
            R.finding('no crash', F)
            n += 1
    if not n:
        R.ok('no crash')
    R.absorb(I)

def one_end(R, T, e):
    I, s, f = T.I, e.s, e.f
    x = dict(exact=e.exact, path=s.path)
    w = '%s, %s' % (e.what, e.why())
    if e.op == 'dealloc':
        if not e.failed:
            R.check('success raises nothing', e.exc == e.pre, f, 'destroying the object %s (%s)' % ('raises an exception' if e.exc is not None else 'loses the exception pending', w), sample=w, **x)
        return
    if e.ok is None:
        R.check('failure raises', False if is_undef(e.v) else None, f, 'the result %r is not known (%s)' % (e.v, w), **x)
        return
    if e.ok:
        R.check('success raises nothing', e.exc is None, f, 'a result is returned while an exception is pending (%s)' % w, sample='%s: %s' % (f.name, w), **x)
    else:
        R.check('failure raises', e.exc is not None, f, 'failure is reported without an exception (%s)' % w, sample='%s: %s' % (f.name, w), **x)
    odd = [n for n, k in e.kinds.items() if k != 'bytes']
    if odd:
        R.check('other objects refused', not e.ok, f, '%s is accepted (%s)' % (shown(e.kinds), w), sample='%s: %s' % (f.name, w), **x)
    elif not e.failed:
        R.check('no failure without cause', e.ok, f, 'the call fails although its arguments are bytes and every call in it succeeded', exact=e.exact, path=s.path, sample='%s: %s' % (f.name, w))
    if e.failed:
        R.check('failures reported', not e.ok, f, 'a result is returned (%s)' % w, **x)
    if e.op == 'init' and e.ok:
        h = held(I, s, e.self_)
        R.check('failures reported', None if h is None else bool(h), f, 'initialisation succeeds without a library context (%s)' % w, **x)
