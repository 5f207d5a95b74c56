"""Interval and polyhedral analysis of every memory access: each entry point is interpreted
with arguments of any size (the caller's buffers have exactly the stated sizes), a context in
any valid state and an error argument that may be missing; every load, store and block
operation must provably stay inside its object and read only initialised bytes."""
from ..entry import *

LEVEL = 'proof'
ASSUMPTIONS = ['callers pass buffers of the sizes they state', 'contexts come from the library (retained length below one block)']
CONCRETE = True
MINIMUM = {'access in bounds': 5 * 3 * 200, 'entry point': 5 * 3 * 12}
KINDS = ('oob', 'null', 'uninit', 'wild', 'div', 'overlap', 'format')

def configs(tier):
    return BUILTIN_QUICK if tier == 'quick' else BUILTIN_ALL

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    return std_tasks(entry, configs(tier))

def entry(R, cfg, alg, names):
    L = Lib(cfg, alg)
    E, names = entry_names(L, names)
    full = (1 << L.pw) - 1
    for n in names:
        for variant in ({}, {'err_maybe': True}) if n != 'context_transform' else ({'err_maybe': True},):
            I, sc, outs = E.run(n, size_hi=full, hash_lo=0, hash_hi=full, **variant)
            R.absorb(I)
            bad = [F for F in I.findings if F.kind in KINDS]
            for F in bad:
                R.finding('access in bounds', F)
            R.ok('access in bounds', max(0, I.stats['accesses'] - len(bad)))
            R.ok('entry point', sample='%s [%s]: %d accesses on %d paths' % (sc.f.name, cfg, I.stats['accesses'], len(outs)))
            for x in sorted(set(I.notes)):
                R.und('analysis', '%s: %s' % (n, x))
