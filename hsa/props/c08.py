"""Fault-propagation dataflow: every allocation, memory primitive whose result is tested,
block transform and nested library call may fail; on every path of every entry point the
return value and the error argument must agree with whether a step failed."""
from ..entry import *

LEVEL = 'proof'
ASSUMPTIONS = ['only failures the program tests for, and failed allocations, are considered']
CONCRETE = True
MINIMUM = {'failure reported': 5 * 2 * 25, 'success means every step succeeded': 5 * 2 * 10}

def configs(tier):
    return ['fb', 'fbr', 'le32'] if tier == 'quick' else BUILTIN_ALL

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    return std_tasks(entry, configs(tier))

def entry(R, cfg, alg, names):
    L = Lib(cfg, alg)
    E, names = entry_names(L, names)
    for n in names:
        I, sc, outs = E.run(n, hash_lo=L.A.digest)
        R.absorb(I)
        exits(R, I, sc, outs, n, cfg)

def exits(R, I, sc, outs, n, cfg):
    f = sc.f
    for s, v in outs:
        ex = s.fuzzy is None
        failed = s.mon.get('failed')
        ok = ret_is(v, 1)
        if n == 'context_transform':
            # -1 or a byte count
            m = ret_is(v, -1)
            ok = (not m) if m is not None else (True if isinstance(v, tm.Term) and v.ts else None)
        no = ret_is(v, -1)
        e = err_value(I, s, sc)
        if failed:
            what = '%s failed (line %s)' % (failed[0][0], failed[0][1])
            key = '%s failed' % failed[0][0]
            if ok:
                R.check('failure reported', False, f, '%s but success is returned [%s]' % (key, cfg), line=failed[0][1] if failed[0][1] else None, exact=ex, path=s.path + (what,))
            else:
                R.check('failure reported', True if no else (False if ok is False and no is False else None), f, '%s but %r is returned [%s]' % (key, v, cfg), line=failed[0][1] or None, exact=ex, path=s.path, sample='%s: %s, returns %r' % (f.name, what, v))
                R.check('error recorded', e, f, '%s but no error is recorded [%s]' % (key, cfg), line=failed[0][1] or None, exact=ex, path=s.path)
        else:
            R.check('success means every step succeeded', ok, f, 'every step succeeded but %r is returned [%s]' % (v, cfg), exact=ex, path=s.path)
            if ok:
                R.check('no error on success', None if e is None else not e, f, 'an error is recorded although the call succeeds [%s]' % cfg, exact=ex, path=s.path)
