"""Path-sensitive dataflow over every entry point with one argument invalid at a time (all
others valid and of any size): every path must return -1 with an error recorded, leave all
memory reachable through the arguments as it was and hold no memory; with all arguments valid
no path may be refused unless a step failed."""
from ..entry import *

LEVEL = 'proof'
CONCRETE = True
MINIMUM = {'rejected': 5 * 2 * 20, 'no effect': 5 * 2 * 20, 'valid accepted': 5 * 2 * 12}

def configs(tier):
    return ['fb', 'le32'] if tier == 'quick' else BUILTIN_ALL

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    return std_tasks(entry, configs(tier))

def variants(L, name):
    """(description, index or callable) of what makes the arguments invalid"""
    what = name.split(':')[0].replace('context_', '')
    top, full = L.ssize_max(), (1 << L.pw) - 1
    D = L.A.digest
    def null(k):
        def f(I, st, sc):
            sc.args[k] = L.null()
        return f
    def big(k, nm):
        def f(I, st, sc):
            sc.args[k] = tm.sym(nm + ' too large', L.pw, top + 1, full)
        return f
    def small(k):
        def f(I, st, sc):
            sc.args[k] = tm.sym('digest size too small', L.pw, 0, D - 1)
            I.objs[sc.out.oid].size = term_e(EMPTY, sc.args[k])
        return f
    def already(I, st, sc):
        p = E_ctx(L, I, st, name)
        st.mem[sc.ref.oid] = Cells({0: (L.ps, p)}, UNDEF)
    if what == 'initialize':
        return [('missing context reference', null(0)), ('context already set', already)]
    if what == 'free':
        return [('missing context reference', null(0))]
    if what in ('update', 'transform'):
        return [('missing context', null(0)), ('missing buffer', null(1)), ('size above the maximum', big(2, 'size'))]
    if what == 'finalize':
        return [('missing context', null(0)), ('missing digest buffer', null(1)), ('digest size too small', small(2)), ('digest size above the maximum', big(2, 'digest size'))]
    if what == 'calculate':
        return [('missing buffer', null(0)), ('size above the maximum', big(1, 'size')), ('missing digest buffer', null(2)), ('digest size too small', small(3)), ('digest size above the maximum', big(3, 'digest size'))]
    return [('missing key', null(0)), ('key size above the maximum', big(1, 'key size')), ('missing buffer', null(2)), ('size above the maximum', big(3, 'size')),
            ('missing digest buffer', null(4)), ('digest size too small', small(5)), ('digest size above the maximum', big(5, 'digest size'))]

def E_ctx(L, I, st, name):
    return Entry(L).ctx(I, st, name)

def entry(R, cfg, alg, names):
    L = Lib(cfg, alg)
    E, names = entry_names(L, names)
    for n in names:
        if not n.endswith(':null'):
            for desc, change in variants(L, n):
                def setup(I, st, sc):
                    change(I, st, sc)
                    sc.before = dict(st.mem)
                    sc.base = set(st.live)
                I, sc, outs = E.run(n, setup=setup, faults=False)
                R.absorb(I)
                f = sc.f
                tag = '%s [%s]' % (desc, cfg)
                if not outs:
                    R.und('rejected', '%s: %s: no path' % (f.name, tag))
                for s, v in outs:
                    ex = s.fuzzy is None
                    r = ret_is(v, -1)
                    R.check('rejected', r, f, '%s: returns %r instead of -1' % (tag, v), exact=ex, path=s.path, sample='%s: %s' % (f.name, tag))
                    e = err_value(I, s, sc)
                    R.check('error recorded', e if e is not None else None, f, '%s: no error is recorded' % tag, exact=ex, path=s.path)
                    touched = [I.objs[o].name for o in sc.before if o != sc.err.oid and o in s.mem and not same_mem(s.cons, s.mem[o], sc.before[o], I.objs[o].size)]
                    gone = [I.objs[o].name for o in sc.base if s.live.get(o) != 'live']
                    lk = leaked(I, s, sc, False)
                    R.check('no effect', not (touched or gone or lk), f, '%s: %s' % (tag, ', '.join(['%s is changed' % x for x in touched] + ['%s is released' % x for x in gone] + ['%s is kept' % I.objs[x].name for x in lk])), exact=ex, path=s.path)
                for F in I.findings:
                    if F.kind == 'null':
                        R.finding('rejected', F, tag + ': ')
        if n == 'context_transform':
            continue    # with valid arguments: C02
        I, sc, outs = E.run(n, hash_lo=L.A.digest)
        R.absorb(I)
        for s, v in outs:
            if s.mon.get('failed'):
                continue
            r = ret_is(v, -1)
            R.check('valid accepted', None if r is None else not r, sc.f, 'valid arguments are refused [%s]: %s' % (cfg, why(s)), exact=s.fuzzy is None, path=s.path, sample='%s %s' % (sc.f.name, s.cons))

def why(s):
    return s.path[-1][2] if s.path else ''
