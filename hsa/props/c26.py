"""References, native contexts and the interpreter lock of the Python module, decided on its IR:
every CPython call may fail; the number of references the call owns, whether the lock is held and
which library contexts exist are part of the state and are compared at every exit."""
from ..pyapi import *

LEVEL = 'proof'
ASSUMPTIONS = ['the CPython functions follow their documented reference and exception contracts', 'the library functions behave as C01-C10 establish']
MINIMUM = {'references balanced': 100, 'lock held again': 100, 'library contexts': 40, 'error objects': 100, 'objects released once': 10, 'initialised again': 5}
MEMORY = ('ref', 'gil', 'double-free', 'bad-free', 'uaf', 'ctx-alg')

def prepare(tier):
    build.compile_all(CFG, 'py')

def tasks(tier):
    return [(l, judge, (l, f, a)) for l, f, a in all_tasks()]

def judge(R, label, fn, args):
    T, ends = fn(*args)
    I = T.I
    for e in ends:
        one_end(R, T, e)
    again = [e for e in ends if e.op == 'init' and e.what.endswith(', initialised')]
    if again:
        # an object with a library context can be initialised again
        e = again[0]
        R.check('initialised again', any(x.ok for x in again), e.f, 'an object that has a library context cannot be initialised again even when every call that may fail succeeds', exact=all(x.exact for x in again), path=e.s.path, sample=e.what)
    n = 0
    for F in I.findings:
        if F.kind in MEMORY:
            R.finding({'gil': 'lock held', 'ref': 'references balanced'}.get(F.kind, 'objects released once'), F)
            n += 1
    if not n:
        R.ok('lock held')
        R.ok('objects released once')
    R.absorb(I)

def one_end(R, T, e):
    I, s, f = T.I, e.s, e.f
    x = dict(exact=e.exact, path=s.path)
    w = '%s, %s' % (e.what, e.why())
    have = refs(s)
    want = {}
    if e.ret == 'object' and e.ok:
        want[e.v.oid] = 1
    if e.ret == 'object' and e.ok is None:
        R.check('references balanced', None, f, 'the result %r is not known (%s)' % (e.v, w))
    else:
        bad = []
        for o in sorted(set(have) | set(want)):
            d = have.get(o, 0) - want.get(o, 0)
            if d:
                nm = I.objs[o].name.lstrip('@')
                bad.append('%d reference(s) to %s are kept' % (d, nm) if d > 0 else '%s is returned without a reference of its own' % nm)
        R.check('references balanced', not bad, f, '%s (%s)' % ('; '.join(bad), w), sample='%s: %s' % (f.name, w), **x)
        if e.ret == 'object' and e.ok:
            R.check('objects released once', s.live.get(e.v.oid, 'live') == 'live', f, 'the object returned was %s (%s)' % (s.live.get(e.v.oid), w), **x)
    R.check('lock held again', s.mon.get('$gil') is True and not s.mon.get('$ens'), f, 'the interpreter lock is not in its previous state at the end (%s)' % w, **x)
    errs = [o for o, l in s.live.items() if l == 'live' and I.objs[o].kind == 'error']
    if e.op == 'fetch':
        v = I.load(s, e.err, 8, None)
        errs = [o for o in errs if not (isinstance(v, Ptr) and v.oid == o)]
    R.check('error objects', not errs, f, 'an error object is not released (%s)' % w, **x)
    nat = natives(I, s)
    if e.op == 'dealloc':
        R.check('library contexts', not nat, f, 'the library context of the object is not released (%s)' % w, **x)
        k = s.mon.get('$freed', ()).count(e.self_.oid)
        R.check('objects released once', k == 1, f, 'the object is released %d times when it is destroyed (%s)' % (k, w), sample='%s: destroyed' % w, **x)
    else:
        p = e.self_ if e.alg and e.op in ('init', 'update', 'finalize') else e.v if e.op == 'new' and e.ok else None
        h = held(I, s, p) if p is not None and s.live.get(p.oid) == 'live' else set()
        if h is None:
            R.check('library contexts', None, f, 'contents of the object not known (%s)' % w)
        else:
            lost, dang = nat - h, {o for o in h if s.live.get(o) != 'live'}
            R.check('library contexts', not lost and not dang, f, '%s (%s)' % ('a library context is lost without being released' if lost else 'the object keeps a released library context', w), sample=w, **x)
