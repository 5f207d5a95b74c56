"""Ownership typestate over every path, including every failure path, of every entry point:
each allocation and context is released exactly once or handed out through the caller's
reference on success, nothing is used or released after its release, and references are set
and cleared as documented."""
from ..entry import *

LEVEL = 'proof'
CONCRETE = True
MINIMUM = {'nothing leaks': 5 * 2 * 60, 'reference': 5 * 2 * 8, 'no misuse of released memory': 5 * 2 * 10}
KINDS = ('uaf', 'double-free', 'bad-free')

def configs(tier):
    return ['fb', 'fbr', 'le32'] if tier == 'quick' else BUILTIN_ALL

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    return std_tasks(entry, configs(tier))

def entry(R, cfg, alg, names):
    L = Lib(cfg, alg)
    E, names = entry_names(L, names)
    for n in names:
        I, sc, outs = E.run(n, hash_lo=0)
        R.absorb(I)
        ownership(R, L, I, sc, outs, cfg)

def ownership(R, L, I, sc, outs, cfg):
    f = sc.f
    bad = [F for F in I.findings if F.kind in KINDS]
    for F in bad:
        R.finding('no misuse of released memory', F)
    if not bad:
        R.ok('no misuse of released memory')
    for s, v in outs:
        ex = s.fuzzy is None
        one = ret_is(v, 1)
        lk = leaked(I, s, sc, one is True)
        why = s.mon.get('failed')
        cond = 'after %s failed' % why[0][0] if why else 'on the path without failures'
        names = ', '.join(sorted({I.objs[o].name.split('@')[0] + ' allocated at line %s' % getattr(I.objs[o].site, 'line', '?') for o in lk}))
        R.check('nothing leaks', not lk, f, '%s of %s is never released %s [%s]' % ('memory' , short(I, lk), cond, cfg), line=why[0][1] if why and why[0][1] else None, exact=ex, path=s.path + ((names,) if lk else ()), sample='%s: %s' % (f.name, cond))
        if sc.ctx is not None and sc.what != 'free':
            R.check('context stays valid', s.live.get(sc.ctx.oid) == 'live', f, 'the context of the caller is released [%s]' % cfg, exact=ex, path=s.path)
        if sc.what == 'initialize':
            p, _ = read_cells(s.mem[sc.ref.oid], 0, L.ps, I.big)
            if one:
                R.check('reference', True if isinstance(p, Ptr) and s.live.get(p.oid) == 'live' and p.off == ZERO else (False if is_null(I, p) or isinstance(p, Ptr) else None), f, 'success without a context handed out [%s]' % cfg, exact=ex, path=s.path)
            else:
                R.check('reference', True if is_null(I, p) else (False if isinstance(p, Ptr) else None), f, 'the reference is set although creation failed [%s]' % cfg, exact=ex, path=s.path)
        elif sc.what == 'free':
            p, _ = read_cells(s.mem[sc.ref.oid], 0, L.ps, I.big)
            R.check('reference', True if is_null(I, p) else (False if isinstance(p, Ptr) else None), f, 'the reference is not cleared [%s]' % cfg, exact=ex, path=s.path)
            if sc.ctx is not None:
                R.check('reference', s.live.get(sc.ctx.oid) != 'live', f, 'the context is not released [%s]' % cfg, exact=ex, path=s.path)

def short(I, lk):
    return ', '.join(sorted({o.split('@')[0].replace('.', ' ') if '@' not in o else o.split('@')[0] for o in lk})) or '-'
