"""Contracts of the external functions the tools call, and helpers shared by the tool checks."""
from .entry import *
from .libc import fail, null, size_e, used

CFG = 'fb'

def tools():
    return program(CFG, None, 'tools')

def setret(I, st, p, v, n=None):
    """a contract stores a result through a pointer argument"""
    I.store(st, p, n if n is not None else v.w // 8, v, None)

def locale_point(I, st, c):
    """libclocale_locale_get_decimal_point: a character of the locale, never the terminator"""
    s2 = st.fork()
    fail(s2, c.name, c.ins)
    set_error(I, s2, c, c.args[1])
    v = tm.sym('decimal_point', 32, 1, 127) if I.opts.get('point') is None else tm.const(I.opts['point'], 32)
    I.store(st, c.args[0], 4, v, c.ins)
    return [(s2, minus1()), (st, tm.const(1, 32))] if I.opts.get('faults', True) else [(st, tm.const(1, 32))]

def strlen(I, st, c):
    p = c.args[0]
    o = I.check_ptr(st, p, c.ins, 'read')
    if o is None:
        return [(st, tm.fresh('len', I.pw, exact=False))]
    if p.oid in I.strings:
        I.hooks.range_read(I, st, p, I.strings[p.oid], c.ins)
        return [(st, toterm(esub(I.strings[p.oid], p.off), I.pw))]
    s = libc.cstring(I, st, p)
    if s is not None:
        return [(st, tm.const(len(s), I.pw))]
    if econst(p.off) and isinstance(st.mem.get(p.oid), Cells):
        # characters that cannot be the terminator, then the terminator
        n = 0
        while n < 4096:
            v, prob = read_cells(st.mem[p.oid], p.off[0] + n, 1, I.big)
            if not isinstance(v, tm.Term):
                break
            lo, hi = tm.irange(v)
            if hi == 0:
                return [(st, tm.const(n, I.pw))]
            if lo == 0:
                break
            n += 1
    return [(st, tm.fresh('len', I.pw, exact=False))]

def interp_for(P, contracts=None, hooks=None, **opts):
    c = dict(libc.BASE)
    c.update({'libclocale_locale_get_decimal_point': locale_point, 'strlen': strlen, 'libcnotify_printf': lambda I, st, c: [(st, tm.const(1, 32))]})
    c.update(contracts or {})
    I = Interp(P, c, hooks)
    I.opts = opts
    I.stop_on_bad = True
    return I
