"""Contracts of the C library and of libcerror: what a call may return, what it reads and
writes, and the failures it may report."""
from . import terms as tm, dom
from .dom import ec, ea, eadd, esub, eaddc, emul, econst, ZERO
from .mem import *
from .interp import Split, Finding

def used(c):
    return c.ins is not None and c.ins.uses > 0

def fail(st, what, ins):
    """record a failed step"""
    st.mon['failed'] = st.mon.get('failed', ()) + ((what, ins.line if ins is not None else 0),)

def size_e(I, st, t):
    e = I.toe(st, t) if isinstance(t, tm.Term) else None
    if e is None:
        if isinstance(t, tm.Term):
            return ea(tm.linatom(t))
        a = tm.fresh('n', 64, exact=False)
        return ea(a.ts[0][0])
    return e

def null(I):
    return tm.const(0, I.pw)

def malloc(I, st, c):
    n = size_e(I, st, c.args[0])
    out = []
    s2 = st.fork()
    fail(s2, 'allocation', c.ins)
    s2.event('fail', 'malloc', c.ins)
    out.append((s2, null(I)))
    p = I.new(st, 'heap', 'heap@%d' % c.ins.line, n, site=c.ins)
    st.event('alloc', p.oid, c.ins)
    out.append((st, p))
    return out

def calloc(I, st, c):
    a, b = size_e(I, st, c.args[0]), size_e(I, st, c.args[1])
    n = emul(b, a[0]) if econst(a) else emul(a, b[0]) if econst(b) else ea(tm.fresh('n', 64, exact=False).ts[0][0])
    s2 = st.fork()
    fail(s2, 'allocation', c.ins)
    p = I.new(st, 'heap', 'heap@%d' % c.ins.line, n, content=Cells({}, fill(tm.const(0, 8))), site=c.ins)
    st.event('alloc', p.oid, c.ins)
    return [(s2, null(I)), (st, p)]

def realloc(I, st, c):
    p = c.args[0]
    n = size_e(I, st, c.args[1])
    s2 = st.fork()
    fail(s2, 'allocation', c.ins)
    q = I.new(st, 'heap', 'heap@%d' % c.ins.line, n, content=Cells({}, TOP), site=c.ins)
    if isinstance(p, Ptr):
        nn = I.isnull(st, p)
        if nn is None:
            raise Split(I.split_null(st, p.oid))
        if not nn:
            release(I, st, p, c.ins)
    st.event('alloc', q.oid, c.ins)
    return [(s2, null(I)), (st, q)]

def release(I, st, p, ins, how='freed'):
    o = I.objs[p.oid]
    l = st.live.get(p.oid, 'live')
    if l != 'live':
        I.find(st, 'double-free', ins, '%s is released again after it was %s' % (o.name, l))
        return
    if o.kind not in ('heap', 'ctx', 'ext-owned', 'handle'):
        I.find(st, 'bad-free', ins, 'release of %s, which is not heap memory' % o.name)
        return
    if p.off != ZERO:
        I.find(st, 'bad-free', ins, 'release of a pointer into the middle of %s' % o.name)
    I.hooks.free(I, st, p.oid, ins)
    st.live[p.oid] = how
    st.event('free', p.oid, ins)

def free(I, st, c):
    p = c.args[0]
    if isinstance(p, tm.Term):
        if not p.ts and p.c == 0:
            return [(st, None)]
        I.find(st, 'bad-free', c.ins, 'release of an integer value', exact=False)
        return [(st, None)]
    if not isinstance(p, Ptr):
        st.blur('release of an unknown pointer')
        return [(st, None)]
    n = I.isnull(st, p)
    if n is None:
        raise Split(I.split_null(st, p.oid))
    if n:
        return [(st, None)]
    release(I, st, p, c.ins)
    return [(st, None)]

def outcome2(I, st, c, ok, what):
    """(primitive succeeded) and, where the program tests the result, (primitive failed)"""
    out = [(st, ok)]
    if used(c) and I.fault_primitives:
        s2 = st.fork()
        fail(s2, what, c.ins)
        out.append((s2, null(I)))
    return out

def memset(I, st, c):
    p, v, n = c.args
    b = tm.trunc(v, 8) if isinstance(v, tm.Term) else tm.fresh('u', 8, exact=False)
    e = size_e(I, st, n)
    if econst(e) and e[0] == 0 and not isinstance(p, Ptr):
        return [(st, p)]
    I.fill_range(st, p, e, b, c.ins, 'memset')
    st.event('memset', p, b, e, c.ins)
    return outcome2(I, st, c, p, 'memory set')

def clear(I, st, c):
    """functions that clear memory and are never optimised away"""
    k = {'memset_s': 3, 'memset_explicit': 2}.get(c.name, 1)
    b = tm.const(0, 8)
    if k > 1:
        b = tm.trunc(c.args[k - 1], 8) if isinstance(c.args[k - 1], tm.Term) else tm.fresh('u', 8, exact=False)
    e = size_e(I, st, c.args[k])
    if not (econst(e) and e[0] == 0 and not isinstance(c.args[0], Ptr)):
        I.fill_range(st, c.args[0], e, b, c.ins, 'memset')
    st.event('memset', c.args[0], b, e, c.ins)
    return [(st, tm.const(0, 32) if c.name == 'memset_s' else c.args[0] if c.name == 'memset_explicit' else None)]

def memcpy(I, st, c):
    d, s, n = c.args[:3]
    e = size_e(I, st, n)
    I.copy_range(st, d, s, e, c.ins, overlap=(c.name in ('memmove', 'llvm.memmove')))
    return outcome2(I, st, c, d, 'memory copy')

def memcmp(I, st, c):
    e = size_e(I, st, c.args[2])
    for p in c.args[:2]:
        o = I.check_ptr(st, p, c.ins, 'read')
        if o is not None:
            I.hooks.range_read(I, st, p, e, c.ins)
            I.in_bounds(st, o, p.off, e, c.ins, 'read')
    sec = any(isinstance(p, Ptr) and p.oid in st.mem and holds_secret(st.mem[p.oid]) for p in c.args[:2])
    return [(st, tm.fresh('memcmp', 32, secret=sec))]

def nothing(I, st, c):
    return [(st, None)]

def intrinsic(name):
    if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
        return lambda I, st, c: (I.copy_range(st, c.args[0], c.args[1], size_e(I, st, c.args[2]), c.ins, overlap='move' in name), [(st, None)])[1]
    if name.startswith('llvm.memset'):
        def f(I, st, c):
            I.fill_range(st, c.args[0], size_e(I, st, c.args[2]), c.args[1], c.ins)
            return [(st, None)]
        return f
    if name.startswith('llvm.lifetime') or name.startswith('llvm.va_') or name.startswith('llvm.assume') or name.startswith('llvm.stack'):
        return nothing
    if name.startswith('llvm.fsh'):
        def f(I, st, c):
            a, b, n = c.args
            if isinstance(n, tm.Term) and not n.ts and isinstance(a, tm.Term) and isinstance(b, tm.Term):
                k = n.c % a.w
                if 'fshr' in name:
                    k = (a.w - k) % a.w
                if k == 0:
                    return [(st, b if 'fshr' in name else a)]
                return [(st, tm.or_(tm.shl(a, k), tm.lshr(b, a.w - k)))]
            return [(st, tm.fresh('u', a.w, exact=False))]
        return f
    if name.startswith('llvm.bswap'):
        def f(I, st, c):
            a = c.args[0]
            return [(st, tm.concat([tm.byte(a, i) for i in range(a.w // 8)][::-1]))]
        return f
    return None

# ---- libcerror
CAUSES = False       # whether the first error recorded is kept

def error_set(I, st, c):
    p = c.args[0]
    st.mon['nerr'] = True
    if CAUSES and len(c.args) > 2 and '$cause' not in st.mon and isinstance(p, Ptr) and I.isnull(st, p) is not True:
        # the first error the program records
        st.mon['$cause'] = (tuple(a.c if isinstance(a, tm.Term) and not a.ts else None for a in c.args[1:3]), c.ins.line)
    # the message is a string constant and its arguments are evaluated
    if len(c.args) > 3 and isinstance(c.args[3], Ptr):
        fmt = cstring(I, st, c.args[3])
        if fmt is not None:
            check_format(I, st, fmt, c.args[4:], c.ins)
    if isinstance(p, Ptr):
        n = I.isnull(st, p)
        if n is None:
            raise Split(I.split_null(st, p.oid))
        if not n:
            o = I.check_ptr(st, p, c.ins, 'write')
            if o is not None and econst(p.off):
                v = I.load(st, p, I.prog.ptrsize, c.ins)
                if isinstance(v, tm.Term) and not v.ts and v.c == 0:
                    e = I.new(st, 'error', 'error object', None, site='error')
                    I.store(st, p, I.prog.ptrsize, e, c.ins)
                st.mon['err'] = True
    return [(st, None)]

def error_free(I, st, c):
    p = c.args[0]
    if isinstance(p, Ptr):
        v = I.load(st, p, I.prog.ptrsize, c.ins)
        if isinstance(v, Ptr):
            if I.objs[v.oid].kind == 'error':
                if st.live.get(v.oid) != 'live':
                    I.find(st, 'double-free', c.ins, 'error object released twice')
                st.live[v.oid] = 'freed'
        I.store(st, p, I.prog.ptrsize, null(I), c.ins)
        st.mon['err'] = False
        st.mon.pop('$cause', None)
    return [(st, None)]

def cstring(I, st, p):
    """the characters of a constant string"""
    if not isinstance(p, Ptr) or not econst(p.off):
        return None
    o = I.objs.get(p.oid)
    if o is None or p.oid not in st.mem:
        return None
    m = st.mem[p.oid]
    if not isinstance(m, Cells):
        return None
    s, i = '', p.off[0]
    while i < 4096:
        v, prob = read_cells(m, i, 1, I.big)
        if not isinstance(v, tm.Term) or v.ts:
            return None
        if v.c == 0:
            return s
        s += chr(v.c)
        i += 1
    return None

import re
FMT = re.compile(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|j|z|t|L)?([a-zA-Z%])')
def check_format(I, st, fmt, args, ins):
    """conversions and arguments agree in number and kind"""
    i = 0
    for m in FMT.finditer(fmt):
        if m.group(5) == '%':
            continue
        for g in (2, 3):
            if m.group(g) == '*':
                i += 1
        if i >= len(args):
            I.find(st, 'format', ins, 'format %r has more conversions than arguments' % fmt)
            return
        a = args[i]
        i += 1
        if m.group(5) == 's':
            if isinstance(a, tm.Term) and not a.ts and a.c == 0:
                I.find(st, 'null', ins, 'null string passed for %%s of %r' % fmt)
            elif isinstance(a, Ptr) and I.isnull(st, a) is True:
                I.find(st, 'null', ins, 'null string passed for %%s of %r' % fmt)
            elif isinstance(a, tm.Term) and a.w < I.pw:
                I.find(st, 'format', ins, 'integer passed for %%s of %r' % fmt)
        elif m.group(5) in 'diuxXoc' and isinstance(a, Ptr) and m.group(5) != 'p':
            I.find(st, 'format', ins, 'pointer passed for %%%s of %r' % (m.group(5), fmt))

BASE = {
    'malloc': malloc, 'calloc': calloc, 'realloc': realloc, 'free': free, 'memset': memset, 'memcpy': memcpy, 'memmove': memcpy, 'memcmp': memcmp,
    'explicit_bzero': clear, 'bzero': clear, 'OPENSSL_cleanse': clear, 'memset_s': clear, 'memset_explicit': clear, 'SecureZeroMemory': clear, 'explicit_memset': memset,
    'libcerror_error_set': error_set, 'libcerror_error_free': error_free,
}
