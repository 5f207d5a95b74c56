"""The sum tool run over abstract inputs: contracts of the file, string-splitting, printing and
hash-context functions it calls, and the pipeline create / options / open / process / print /
close / release executed on its own code."""
from .tools import *
from .libc import fail, size_e
from . import spec

FILE = Seq('FILE', secret=False)
DIG = {a: Seq('DIGEST_' + a, secret=False) for a in ALGS}
HEX = {a: Seq('HEX_' + a, secret=False, lo=48, hi=102) for a in ALGS}
LABEL = {a: a.upper() for a in ALGS}
SSIZE = (1 << 63) - 1
SPELL = {'md5': ['md5', 'MD5']}
for _n in ('1', '224', '256', '512'):
    SPELL['sha' + _n] = [x + y + _n for x in ('sha', 'SHA') for y in ('', '-', '_')]

def one():
    return tm.const(1, 32)

def faulty(I):
    return I.opts.get('faults', False)

def failing(I, st, c, what, err=None, v=None):
    fail(st, what, c.ins)
    if err is not None:
        set_error(I, st, c, err)
    return (st, minus1() if v is None else v)

def outcomes(I, st, c, what, err, ok, v=None):
    """the failing outcome, when considered, and the given successful one"""
    out = []
    if faulty(I) and (c.ins is None or libc.used(c)):
        out.append(failing(I, st.fork(), c, what, err, v))
    out.append((st, ok))
    return out

def malloc(I, st, c):
    r = libc.malloc(I, st, c)
    return r if faulty(I) else r[1:]

def ref_init(kind, name, content=None):
    def h(I, st, c):
        ref, err = c.args[:2]
        v = I.load(st, ref, 8, c.ins)
        if not is_null(I, v):
            if isinstance(v, Ptr) and not need_nn(I, st, v):
                I.find(st, 'ctx-order', c.ins, '%s is created over one that is still set' % name)
            return [failing(I, st, c, '%s already set' % name, err)]
        out = []
        if faulty(I):
            out.append(failing(I, st.fork(), c, 'creating %s' % name, err))
        p = I.new(st, 'heap', '%s@%d' % (kind, c.ins.line), None, content=content() if content else Cells({}, TOP), site=c.ins, info=kind)
        I.store(st, ref, 8, p, c.ins)
        st.mon['$made'] = st.mon.get('$made', ()) + (kind,)
        out.append((st, one()))
        return out
    return h

def ref_free(kind, name):
    def h(I, st, c):
        ref, err = c.args[:2]
        if need_nn(I, st, ref):
            return [failing(I, st, c, 'reference to %s missing' % name, err)]
        v = I.load(st, ref, 8, c.ins)
        if isinstance(v, Ptr) and not need_nn(I, st, v):
            if I.objs[v.oid].info != kind:
                I.find(st, 'ctx-alg', c.ins, 'a %s is released as %s' % (I.objs[v.oid].info or I.objs[v.oid].kind, name))
            libc.release(I, st, v, c.ins)
            I.store(st, ref, 8, null(I), c.ins)
        return outcomes(I, st, c, 'releasing %s' % name, err, one())
    return h

# ---- files: cells 0 position, 8 whether it is open
def file_open(I, st, c):
    p, name, mode, err = c.args[:4]
    for a in (p, name):
        if need_nn(I, st, a):
            return [failing(I, st, c, 'opening without a name', err)]
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'opening the input', err))
    I.store(st, p, 8, tm.const(0, 64), c.ins)
    I.store(st, Ptr(p.oid, ec(8)), 8, tm.const(1, 64), c.ins)
    out.append((st, one()))
    return out

def file_close(I, st, c):
    p, err = c.args[:2]
    if need_nn(I, st, p):
        return [failing(I, st, c, 'closing no file', err)]
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'closing the input', err))
    I.store(st, Ptr(p.oid, ec(8)), 8, tm.const(0, 64), c.ins)
    out.append((st, tm.const(0, 32)))
    return out

def file_size(I, st, c):
    p, q, err = c.args[:3]
    if need_nn(I, st, p):
        return [failing(I, st, c, 'size of no file', err)]
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'determining the size of the input', err))
    I.store(st, q, 8, I.opts['media'], c.ins)
    out.append((st, one()))
    return out

def file_read(I, st, c):
    """delivers between one byte and the size asked for, from the current position"""
    p, buf, size, err = c.args[:4]
    for a in (p, buf):
        if need_nn(I, st, a):
            return [failing(I, st, c, 'read arguments missing', err, minus1(64))]
    e = size_e(I, st, size)
    if not st.cons.entails(esub(ec(SSIZE), e)):
        if not st.cons.refutes(esub(ec(SSIZE), e)):
            raise Split(I.alts(st, esub(ec(SSIZE), e)))
        return [failing(I, st, c, 'read size above the maximum', err, minus1(64))]
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'reading the input', err, minus1(64)))
    if faulty(I) or I.opts.get('short'):
        s2 = st.fork()
        fail(s2, 'premature end of the input', c.ins)
        out.append((s2, tm.const(0, 64)))
    o = I.check_ptr(st, buf, c.ins, 'write')
    if o is None:
        return out
    I.hooks.range_write(I, st, buf, e, c.ins)
    if not I.in_bounds(st, o, buf.off, e, c.ins, 'write'):
        return out
    pos = I.load(st, p, 8, c.ins)
    pe = I.toe(st, pos)
    amounts = []
    if I.opts.get('fixed') and pe is not None:
        # a file that does not grow ends at its size
        left = esub(I.toe(st, I.opts['media']), pe)
        I.decide_e(st, eaddc(left, -1))
        if st.cons.refutes(eaddc(left, -1)):
            return out + [(st, tm.const(0, 64))]
        I.decide_e(st, esub(left, e))
        if not st.cons.entails(esub(left, e)):
            e, size = left, toterm(left, 64)
    am = I.opts.get('amounts')
    if am:
        if not econst(e):
            raise AnchorError('read size not constant')
        amounts = [(st.fork(), tm.const(k, 64)) for k in range(1, e[0] + 1)]
        if e[0] == 0:
            amounts = [(st.fork(), tm.const(0, 64))]
    else:
        n = tm.fresh('read', 64)
        n = tm.T(64, 0, ((tm.atom('sym', (repr(n.ts[0][0]),), 64, 0, SSIZE), 1),))
        ne = ea(n.ts[0][0])
        # part of what was asked for
        s3 = st.fork()
        s3.cons = s3.cons.add(eaddc(esub(e, ne), -1))
        if s3.cons is not None:
            s3.cons = s3.cons.add(eaddc(ne, -1))
            if s3.cons is not None:
                amounts.append((s3, n))
        # all of it
        amounts.append((st.fork(), size))
    while amounts:
        s, n = amounts.pop(0)
        ne = I.toe(s, n)
        m = to_segs(s.mem[buf.oid], o.size)
        k = src(FILE, esub(pe, buf.off)) if pe is not None else TOP
        try:
            I.seg_put(s, buf.oid, m, buf.off, eadd(buf.off, ne), [(buf.off, eadd(buf.off, ne), k)])
        except Split as x:
            amounts += [(q, n) for q in x.states]
            continue
        I.recell(s, buf.oid)
        I.store(s, p, 8, tm.add(pos, n), c.ins)
        out.append((s, n))
    return out

# ---- hash contexts: cells 0 bytes absorbed, 8 status (1 open, 2 finalised), 16 bytes absorbed out of order
def context(alg):
    A = spec.ALGS[alg]
    kind = alg + ' context'
    def check(I, st, p, ins):
        if I.objs[p.oid].info != kind:
            I.find(st, 'ctx-alg', ins, 'a %s is passed to a %s function' % (I.objs[p.oid].info, alg))
            return False
        return True
    def update(I, st, c):
        p, buf, n, err = c.args[:4]
        for q, w in ((p, 'context'), (buf, 'buffer')):
            if need_nn(I, st, q):
                return [failing(I, st, c, '%s %s missing' % (alg, w), err)]
        e = size_e(I, st, n)
        if not st.cons.entails(esub(ec(SSIZE), e)):
            if not st.cons.refutes(esub(ec(SSIZE), e)):
                raise Split(I.alts(st, esub(ec(SSIZE), e)))
            return [failing(I, st, c, 'size above the maximum', err)]
        out = []
        if faulty(I):
            out.append(failing(I, st.fork(), c, '%s update' % alg, err))
        bo, co = I.check_ptr(st, buf, c.ins, 'read'), I.check_ptr(st, p, c.ins, 'write')
        if bo is None or co is None or not check(I, st, p, c.ins):
            return out
        I.hooks.range_read(I, st, buf, e, c.ins)
        if I.in_bounds(st, bo, buf.off, e, c.ins, 'read'):
            tot = I.load(st, p, 8, c.ins)
            te = I.toe(st, tot)
            stat = I.load(st, Ptr(p.oid, ec(8)), 8, c.ins)
            if not ret_is(stat, 1):
                I.find(st, 'ctx-order', c.ins, '%s is updated after it was finalised' % alg)
            r = is_source(st, content(I, st, buf, buf.off, eadd(buf.off, e)), FILE, esub(te, buf.off)) if te is not None else None
            if r is not True:
                I.find(st, 'stream', c.ins, 'bytes other than the next ones of the input are passed to %s' % alg, exact=r is False)
            I.store(st, p, 8, tm.add(tot, toterm(e, 64)), c.ins)
        out.append((st, one()))
        return out
    def finalize(I, st, c):
        p, buf, n, err = c.args[:4]
        for q, w in ((p, 'context'), (buf, 'digest buffer')):
            if need_nn(I, st, q):
                return [failing(I, st, c, '%s %s missing' % (alg, w), err)]
        e = size_e(I, st, n)
        for lim in (eaddc(e, -A.digest), esub(ec(SSIZE), e)):
            if not st.cons.entails(lim):
                if not st.cons.refutes(lim):
                    raise Split(I.alts(st, lim))
                return [failing(I, st, c, 'digest size out of bounds', err)]
        out = []
        if faulty(I):
            out.append(failing(I, st.fork(), c, '%s finalisation' % alg, err))
        bo, co = I.check_ptr(st, buf, c.ins, 'write'), I.check_ptr(st, p, c.ins, 'write')
        if bo is None or co is None or not check(I, st, p, c.ins):
            return out
        I.hooks.range_write(I, st, buf, ec(A.digest), c.ins)
        if I.in_bounds(st, bo, buf.off, e, c.ins, 'write'):
            stat = I.load(st, Ptr(p.oid, ec(8)), 8, c.ins)
            if not ret_is(stat, 1):
                I.find(st, 'ctx-order', c.ins, '%s is finalised twice' % alg)
            I.store(st, Ptr(p.oid, ec(8)), 8, tm.const(2, 64), c.ins)
            st.mon['$fin'] = st.mon.get('$fin', ()) + ((alg, I.load(st, p, 8, c.ins)),)
            m = to_segs(st.mem[buf.oid], bo.size)
            I.seg_put(st, buf.oid, m, buf.off, eaddc(buf.off, A.digest), [(buf.off, eaddc(buf.off, A.digest), src(DIG[alg], eneg(buf.off)))])
            I.recell(st, buf.oid)
        out.append((st, one()))
        return out
    n = 'libhmac_%s_context_' % alg
    return {n + 'initialize': ref_init(kind, 'the %s context' % alg, lambda: Cells({0: (8, tm.const(0, 64)), 8: (8, tm.const(1, 64))}, TOP)),
            n + 'free': ref_free(kind, 'the %s context' % alg), n + 'update': update, n + 'finalize': finalize}

def eneg(e):
    return dom.eneg(e)

def hexstring(I, st, c):
    """digest_hash_copy_to_string, as C22 establishes it"""
    h, n, s, m, err = c.args[:5]
    for a in (h, s):
        if need_nn(I, st, a):
            return [failing(I, st, c, 'digest or string missing', err)]
    ne, me = size_e(I, st, n), size_e(I, st, m)
    for lim in (esub(ec(SSIZE), ne), esub(ec(SSIZE), me), esub(me, eaddc(emul(ne, 2), 1))):
        if not st.cons.entails(lim):
            if not st.cons.refutes(lim):
                raise Split(I.alts(st, lim))
            return [failing(I, st, c, 'string too small for the digest', err)]
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'digest to string', err))
    ho, so = I.check_ptr(st, h, c.ins, 'read'), I.check_ptr(st, s, c.ins, 'write')
    if ho is None or so is None:
        return out
    I.hooks.range_read(I, st, h, ne, c.ins)
    I.hooks.range_write(I, st, s, eaddc(emul(ne, 2), 1), c.ins)
    if not I.in_bounds(st, ho, h.off, ne, c.ins, 'read') or not I.in_bounds(st, so, s.off, eaddc(emul(ne, 2), 1), c.ins, 'write'):
        return out
    segs = content(I, st, h, h.off, eadd(h.off, ne))
    kind = TOP
    for a in ALGS:
        if econst(ne) and is_source(st, segs, DIG[a], eneg(h.off)) is True:
            kind = src(HEX[a], eneg(s.off))
    if kind is TOP:
        for lo, hi, k in segs:
            if k[0] == 'undef' and st.cons.entails(eaddc(esub(hi, lo), -1)):
                I.find(st, 'uninit', c.ins, 'uninitialised bytes are turned into a string')
    end = eadd(s.off, emul(ne, 2))
    m = to_segs(st.mem[s.oid], so.size)
    I.seg_put(st, s.oid, m, s.off, end, [(s.off, end, kind)])
    I.store(st, Ptr(s.oid, end), 1, tm.const(0, 8), c.ins)
    I.recell(st, s.oid)
    out.append((st, one()))
    return out

# ---- splitting at a separator
def split(I, st, c):
    s, n, d, ref, err = c.args[:5]
    if need_nn(I, st, s):
        return [failing(I, st, c, 'splitting no string', err)]
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'splitting the string', err))
    parts = I.opts.get('parts')
    txt = libc.cstring(I, st, s)
    if parts is None and txt is not None and not n.ts and not d.ts:
        txt = txt[:n.c]
        if n.c > len(txt) + 1 or n.c == 0:
            I.find(st, 'oob', c.ins, 'the size passed for the string %r is %d' % (txt, n.c))
        elif n.c < len(txt) + 1:
            txt = txt[:n.c - 1]
        parts = [tuple(tm.const(ord(x), 8) for x in y) for y in txt.split(chr(d.c))]
    p = I.new(st, 'heap', 'split@%d' % c.ins.line, None, content=Cells({}, TOP), site=c.ins, info='split string')
    st.mon['$parts'] = None if parts is None else tuple(parts)
    I.store(st, ref, 8, p, c.ins)
    out.append((st, one()))
    return out

def split_count(I, st, c):
    p, q, err = c.args[:3]
    if need_nn(I, st, p):
        return [failing(I, st, c, 'no split string', err)]
    I.check_ptr(st, p, c.ins, 'read')
    parts = st.mon.get('$parts')
    v = tm.const(len(parts), 32) if parts is not None else tm.sym('segments', 32, 0, (1 << 31) - 1)
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'counting the segments', err))
    I.store(st, q, 4, v, c.ins)
    out.append((st, one()))
    return out

def split_get(I, st, c):
    p, i, q, z, err = c.args[:5]
    if need_nn(I, st, p):
        return [failing(I, st, c, 'no split string', err)]
    o = I.check_ptr(st, p, c.ins, 'read')
    parts = st.mon.get('$parts')
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'getting a segment', err))
    if parts is not None and not i.ts:
        k = tm.sgn(i.c, i.w)
        if not 0 <= k < len(parts):
            return out + [failing(I, st, c, 'segment index out of bounds', err)]
        chars = parts[k]
        cells = {j: (1, t) for j, t in enumerate(chars)}
        cells[len(chars)] = (1, tm.const(0, 8))
        s = I.new(st, 'ext', 'segment', len(chars) + 1, content=Cells(cells, UNDEF), writable=False)
        n = tm.const(len(chars) + 1, 64)
        if I.opts.get('gaps') and faulty(I):
            s2 = st.fork()
            fail(s2, 'missing segment', c.ins)
            I.store(s2, q, 8, null(I), c.ins)
            I.store(s2, z, 8, tm.const(0, 64), c.ins)
            out.append((s2, one()))
    else:
        n = tm.fresh('segment_size', 64)
        n = tm.T(64, 0, ((tm.atom('sym', (repr(n.ts[0][0]),), 64, 1, SSIZE), 1),))
        s = I.new(st, 'ext', 'segment', ea(n.ts[0][0]), content=Cells({}, TOP), writable=False)
        if faulty(I):
            # an element without a string
            s2 = st.fork()
            fail(s2, 'missing segment', c.ins)
            I.store(s2, q, 8, null(I), c.ins)
            I.store(s2, z, 8, tm.const(0, 64), c.ins)
            out.append((s2, one()))
    I.store(st, q, 8, s, c.ins)
    I.store(st, z, 8, n, c.ins)
    out.append((st, one()))
    return out

def memcmp(I, st, c):
    """decided for constant bytes; otherwise one outcome pins the bytes, the other records the
    strings they differ from"""
    a, b, n = c.args[:3]
    e = size_e(I, st, n)
    for p in (a, b):
        o = I.check_ptr(st, p, c.ins, 'read')
        if o is None:
            return [(st, tm.fresh('memcmp', 32, exact=False))]
        I.hooks.range_read(I, st, p, e, c.ins)
        I.in_bounds(st, o, p.off, e, c.ins, 'read')
    if not econst(e) or e[0] > 64:
        return [(st, tm.fresh('memcmp', 32))]
    va, vb = [], []
    for p, l in ((a, va), (b, vb)):
        for i in range(e[0]):
            v, _ = read_cells(st.mem[p.oid], p.off[0] + i, 1, I.big) if isinstance(st.mem[p.oid], Cells) and econst(p.off) else (None, None)
            if not isinstance(v, tm.Term):
                return [(st, tm.fresh('memcmp', 32))]
            l.append(v)
    out, cur = [], st.cons
    open_ = []
    for x, y in zip(va, vb):
        if x.ts:
            x = fixed(st, x)
        if y.ts:
            y = fixed(st, y)
        if not x.ts and not y.ts:
            if x.c != y.c:
                if not open_:
                    return [(st, tm.const(1 if x.c > y.c else -1, 32))]
                break
            continue
        open_.append((x, y))
    else:
        if not open_:
            return [(st, tm.const(0, 32))]
        s2 = st.fork()
        ok = True
        for x, y in open_:
            d = esub(I.toe(s2, x), I.toe(s2, y))
            s2.cons = s2.cons.addeq(d)
            if s2.cons is None:
                ok = False
                break
        if ok:
            out.append((s2, tm.const(0, 32)))
    st.mon['$differ'] = st.mon.get('$differ', ()) + (tuple(zip(va, vb)),)
    r = tm.fresh('memcmp', 32)
    r = tm.T(32, 0, ((tm.atom('sym', (repr(r.ts[0][0]),), 32, 1, (1 << 32) - 1), 1),))
    out.append((st, r))
    return out

def fixed(st, t):
    v = pinned(st, t)
    return t if v is None else tm.const(v, t.w)

def pinned(st, t):
    """the only value the constraints leave"""
    if not t.ts:
        return t.c
    e = term_e(st.cons, t)
    if e is not None:
        lo, hi = dom.ebounds(e)
        while lo < hi:
            mid = (lo + hi) // 2
            if st.cons.entails(esub(ec(mid), e)):
                hi = mid
            else:
                lo = mid + 1
        if st.cons.entails(eaddc(e, -hi)):
            return hi
    return None

# ---- printing
FMT = libc.FMT
def render(I, st, fmt, args, ins):
    """the printed text as a tuple of strings and markers"""
    out, i, pos = [], 0, 0
    for m in FMT.finditer(fmt):
        if m.start() > pos:
            out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(5) == '%':
            out.append('%')
            continue
        for g in (2, 3):
            if m.group(g) == '*':
                i += 1
        a = args[i] if i < len(args) else None
        i += 1
        if m.group(5) == 's' and isinstance(a, Ptr) and I.isnull(st, a) is not True:
            o = I.check_ptr(st, a, ins, 'read')
            if o is None:
                out.append(('?',))
                continue
            t = libc.cstring(I, st, a)
            if t is not None and o.kind == 'global':
                out.append(t)
                continue
            r = digest_string(I, st, a)
            if m.group(2) or m.group(3):
                r = ('?', 'a width or precision')
            out.append(r)
        else:
            out.append(('?',))
    out.append(fmt[pos:])
    return tuple(x for x in out if x != '')

def digest_string(I, st, p):
    """('hex', alg) when the string is the full hexadecimal digest of alg"""
    o = I.objs[p.oid]
    for a in ALGS:
        n = 2 * spec.ALGS[a].digest
        if o.size is not None and econst(o.size) and o.size[0] < n + 1:
            continue
        try:
            segs = content(I, st, p, p.off, eaddc(p.off, n))
            if is_source(st, segs, HEX[a], eneg(p.off)) is True:
                z, _ = read_byte(st.cons, to_segs(st.mem[p.oid], o.size), eaddc(p.off, n), 1, I.big)
                if isinstance(z, tm.Term) and not z.ts and z.c == 0:
                    return ('hex', a)
        except NeedSplit:
            pass
    m = to_segs(st.mem[p.oid], o.size).s
    if any(k[0] == 'undef' for _, _, k in m[:1]):
        return ('undef',)
    if any(any(h in repr(k) for h in ('HEX_',)) for _, _, k in m):
        return ('part', repr(m)[:80])
    return ('?',)

def emit(I, st, c, stream, items, what):
    k = stream.oid if isinstance(stream, Ptr) else repr(stream)
    st.mon['$out'] = st.mon.get('$out', ()) + tuple((k, x) for x in items)
    out = []
    if faulty(I) and (I.opts.get('output') == 'always' or libc.used(c)):
        s2 = st.fork()
        fail(s2, what, c.ins)
        out.append((s2, minus1(c.ins.ty.bits if c.ins.ty.kind == 'int' else 32)))
    n = tm.fresh('printed', 32)
    n = tm.T(32, 0, ((tm.atom('sym', (repr(n.ts[0][0]),), 32, 1, (1 << 31) - 1), 1),))
    out.append((st, n))
    return out

def fprintf(I, st, c):
    stream, fmt = c.args[:2]
    f = libc.cstring(I, st, fmt)
    if f is None:
        return emit(I, st, c, stream, (('?',),), 'printing')
    libc.check_format(I, st, f, c.args[2:], c.ins)
    return emit(I, st, c, stream, render(I, st, f, c.args[2:], c.ins), 'printing')

def fputs(I, st, c):
    s, stream = c.args[:2]
    f = libc.cstring(I, st, s) if isinstance(s, Ptr) else None
    if f is not None and I.objs[s.oid].kind == 'global':
        return emit(I, st, c, stream, (f,), 'printing')
    if isinstance(s, Ptr) and I.check_ptr(st, s, c.ins, 'read') is not None:
        return emit(I, st, c, stream, (digest_string(I, st, s),), 'printing')
    return emit(I, st, c, stream, (('?',),), 'printing')

def fputc(I, st, c):
    v, stream = c.args[:2]
    return emit(I, st, c, stream, (chr(v.c & 255) if isinstance(v, tm.Term) and not v.ts else ('?',),), 'printing')

def fflush(I, st, c):
    return emit(I, st, c, c.args[0], (), 'flushing')

def fwrite(I, st, c):
    s, a, b, stream = c.args[:4]
    f = libc.cstring(I, st, s) if isinstance(s, Ptr) else None
    if f is not None and all(isinstance(x, tm.Term) and not x.ts for x in (a, b)) and a.c * b.c <= len(f):
        s2 = f[:a.c * b.c]
        r = emit(I, st, c, stream, (s2,), 'printing')
        return [(q, v if v.c else tm.const(b.c, 64)) for q, v in r[:-1]] + [(r[-1][0], tm.const(b.c, 64))]
    emit(I, st, c, stream, (('?',),), 'printing')
    return [(st, b)]

def lines(out, stream=None):
    """printed lines, each a list of strings and markers"""
    r, cur = [], []
    for k, x in out:
        if isinstance(x, str):
            while '\n' in x:
                a, x = x.split('\n', 1)
                if a:
                    cur.append((k, a))
                r.append(cur)
                cur = []
            if x:
                cur.append((k, x))
        else:
            cur.append((k, x))
    if cur:
        r.append(cur)
    return r

def signal_point(I, st, c):
    return outcomes(I, st, c, c.name, c.args[-1], one())

CONTRACTS = {
    'malloc': malloc, 'memcmp': memcmp, 'fprintf': fprintf, 'fputs': fputs, 'fputc': fputc, 'putc': fputc, 'fwrite': fwrite, 'fflush': fflush,
    'digest_hash_copy_to_string': hexstring,
    'libcfile_file_initialize': ref_init('file', 'the file', lambda: Cells({0: (8, tm.const(0, 64)), 8: (8, tm.const(0, 64))}, TOP)),
    'libcfile_file_free': ref_free('file', 'the file'), 'libcfile_file_open': file_open, 'libcfile_file_close': file_close,
    'libcfile_file_get_size': file_size, 'libcfile_file_read_buffer': file_read,
    'libcsplit_narrow_string_split': split, 'libcsplit_narrow_split_string_get_number_of_segments': split_count,
    'libcsplit_narrow_split_string_get_segment_by_index': split_get, 'libcsplit_narrow_split_string_free': ref_free('split string', 'the split string'),
}
for _a in ALGS:
    CONTRACTS.update(context(_a))

def convert(I, st, c):
    """byte_size_string_convert: the value of the option, whatever it is"""
    s, n, q, err = c.args[:4]
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'converting the size', err))
    I.store(st, q, 8, I.opts['buffer'], c.ins)
    out.append((st, one()))
    return out

class Run:
    """one handle taken through the calls main makes"""
    def __init__(self, contracts=None, **opts):
        self.P = tools()
        c = dict(CONTRACTS)
        c['byte_size_string_convert'] = convert
        for k, h in (contracts or {}).items():
            if h is None:
                c.pop(k, None)
            else:
                c[k] = h
        opts.setdefault('media', tm.sym('media_size', 64, 0, SSIZE))
        self.I = interp_for(self.P, c, None, **opts)
        self.I.stop_on_bad = True
        self.st = st = State()
        self.err = self.I.new(st, 'arg', 'error', 8, content=Cells({0: (8, tm.const(0, 64))}, UNDEF))
        self.ref = self.I.new(st, 'arg', 'handle reference', 8, content=Cells({0: (8, tm.const(0, 64))}, UNDEF))
        self.base = set(st.live)
        self.stream = self.I.new(st, 'ext', 'stream', None, content=Cells({}, TOP))
        self.f = None
    def text(self, s, st, name='string'):
        cells = {i: (1, tm.const(ord(ch), 8)) for i, ch in enumerate(s)}
        cells[len(s)] = (1, tm.const(0, 8))
        return self.I.new(st, 'arg', name, len(s) + 1, content=Cells(cells, UNDEF), writable=False)
    def handle(self, st):
        return self.I.load(st, self.ref, 8, None)
    def clear(self, st):
        """forget the outcome of the previous call"""
        st.mon.pop('failed', None)
        st.mon.pop('$cause', None)
        st.mem[self.err.oid] = Cells({0: (8, tm.const(0, 64))}, UNDEF)
    def call(self, name, args, st, faults=False):
        self.f = f = func(self.P, 'sum_handle_' + name)
        self.I.opts['faults'] = faults
        self.I.fault_primitives = faults
        self.clear(st)
        a = [(self.handle(st) if x == 'H' else x) for x in args] + [self.err]
        if len(a) != len(f.args):
            raise AnchorError('sum_handle_%s does not take %d arguments' % (name, len(a)))
        return self.I.run(f, a, st)
    def step(self, states, name, args, ok=1):
        """states in which the call succeeded; the calls leading up to the one examined cannot fail"""
        out = []
        for st in states:
            for s, v in self.call(name, args(st) if callable(args) else args, st):
                if ret_is(v, ok):
                    out.append(s)
        return out
    def start(self, digests=None, buffer=None, opened=True):
        I = self.I
        sts = self.step([self.st], 'initialize', [self.ref])
        if buffer is not None:
            I.opts['buffer'] = buffer
            sts = [s for st in sts for s, v in self.call('set_process_buffer_size', ['H', self.text('1', st)], st) if ret_is(v, 1) or ret_is(v, 0)]
        if digests is not None:
            # its result is documented as 1
            sts = [s for st in sts for s, v in self.call('set_digest_types', ['H', self.text(digests, st)], st) if not ret_is(v, -1)]
        if opened:
            sts = self.step(sts, 'open_input', lambda st: ['H', self.text('name', st)])
        if not sts and not self.I.findings:
            raise AnchorError('no handle can be set up for %r' % (digests,))
        return sts
    def trouble(self, R, kinds, rule):
        n = 0
        for F in self.I.findings:
            if F.kind in kinds:
                R.finding(rule, F)
                n += 1
        if not n:
            R.ok(rule)

# ---- bounded printing, signals, buffering
def width(I, st, conv, a):
    """most characters a conversion prints; None when unknown"""
    if conv == 'c':
        return 1
    if conv == 's':
        t = libc.cstring(I, st, a) if isinstance(a, Ptr) else None
        return None if t is None else len(t)
    if conv in 'diuxXo' and isinstance(a, tm.Term):
        e = I.toe(st, a) if a.ts else ec(a.c)
        if e is None:
            return None
        base = {'x': 16, 'X': 16, 'o': 8}.get(conv, 10)
        for n in range(1, 24):
            if st.cons.entails(esub(ec(base ** n - 1), e)):
                return n
    return None

def snprintf(I, st, c):
    p, n, fmt = c.args[:3]
    f = libc.cstring(I, st, fmt)
    e = size_e(I, st, n)
    mx, mn = None, 0
    if f is not None:
        libc.check_format(I, st, f, c.args[3:], c.ins)
        mx, i, pos = 0, 3, 0
        for m in FMT.finditer(f):
            mx = None if mx is None else mx + m.start() - pos
            mn += m.start() - pos
            pos = m.end()
            mn += 1 if m.group(5) in '%diuxXoc' and not m.group(3) else 0
            if m.group(5) == '%':
                mx = None if mx is None else mx + 1
                continue
            if m.group(2) or m.group(3):
                mx = None
                break
            w = width(I, st, m.group(5), c.args[i]) if i < len(c.args) else None
            i += 1
            mx = None if w is None or mx is None else mx + w
        mx = None if mx is None else mx + len(f) - pos
        mn += 0 if mx is None else len(f) - pos
    o = I.check_ptr(st, p, c.ins, 'write')
    if o is None:
        return [(st, minus1())]
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'printing to the string', None))
    I.fill_range(st, p, e, None, c.ins)
    r = tm.fresh('printed', 32)
    at = tm.atom('sym', (repr(r.ts[0][0]),), 32, mn, (1 << 31) - 1 if mx is None else mx)
    r = tm.T(32, 0, ((at, 1),))
    fits = eaddc(esub(e, ea(at)), -1)
    for x, bad in ((fits, False), (eneg(eaddc(fits, 1)), True)):
        s2 = st.fork()
        s2.cons = st.cons.add(x)
        if s2.cons is None:
            continue
        if bad:
            fail(s2, 'fitting the string', c.ins)
        out.append((s2, r))
    return out

def c_signal(I, st, c):
    out = []
    st.mon['$signal'] = st.mon.get('$signal', ()) + (c.args[1],)
    if faulty(I):
        s2 = st.fork()
        fail(s2, 'setting the signal handler', c.ins)
        out.append((s2, tm.const(-1, 64)))
    p = I.new(st, 'ext', 'previous handler', None, content=Cells({}, TOP))
    out.append((st, p))
    return out

def setvbuf(I, st, c):
    out = []
    if faulty(I):
        s2 = st.fork()
        fail(s2, 'setting the buffering', c.ins)
        out.append((s2, minus1()))
    out.append((st, tm.const(0, 32)))
    return out

def close_fd(I, st, c):
    out = []
    if faulty(I) and libc.used(c):
        s2 = st.fork()
        out.append((s2, minus1()))
    out.append((st, tm.const(0, 32)))
    return out

def strcompare(limited):
    def h(I, st, c):
        a, b = c.args[:2]
        lim = size_e(I, st, c.args[2]) if limited else ec(1 << 30)
        if not econst(lim):
            return [(st, tm.fresh('strcmp', 32))]
        ls = []
        for p in (a, b):
            o = I.check_ptr(st, p, c.ins, 'read')
            m = st.mem.get(p.oid) if isinstance(p, Ptr) else None
            if o is None or not isinstance(m, Cells) or not econst(p.off):
                return [(st, tm.fresh('strcmp', 32))]
            l = []
            while len(l) < min(lim[0], 4096):
                v, _ = read_cells(m, p.off[0] + len(l), 1, I.big)
                if not isinstance(v, tm.Term) or (v.ts and tm.irange(v)[0] == 0):
                    return [(st, tm.fresh('strcmp', 32))]
                l.append(v)
                if not v.ts and v.c == 0:
                    break
            ls.append(l)
        n = min(len(ls[0]), len(ls[1]))
        from .interp import Call
        return memcmp(I, st, Call('memcmp', [a, b, tm.const(n, 64)], c.ins, None))
    return h

CONTRACTS.update({'snprintf': snprintf, 'signal': c_signal, 'setvbuf': setvbuf, 'close': close_fd, 'strcmp': strcompare(False), 'strncmp': strcompare(True)})
