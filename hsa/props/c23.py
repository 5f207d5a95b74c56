"""The size-string parser, decided on its IR for whole classes of strings at once: digits are
symbolic (any digit at every position), the suffix is enumerated, and the value stored is
compared as a term with digits * unit^power; refusals must be entailed by an overflow.  Strings
of any length and content are used for the bounds of every read, and strings with symbolic
tails for the refusal of unknown suffixes."""
from ..tools import *
from .. import tools as tl

LEVEL = 'proof'
ASSUMPTIONS = ['the decimal point of the locale is one character and not the terminator', 'fractions of units that are powers of 1024 or of more than two digits, a space before the suffix and data after a complete suffix are not specified and only checked for memory safety']
MINIMUM = {'converted to the stated number of bytes': 300, 'only a size that does not fit is refused': 1, 'unknown suffix': 20, 'fractions': 100, 'reads stay within the string': 2, 'buffer size in effect': 3}
NAME, SET, START = 'byte_size_string_convert', 'sum_handle_set_process_buffer_size', 'sum_handle_process_input'
LETTERS = 'kmgtpe'
SUFFIX = [('', 1, 0), ('B', 1, 0)] + [(x + y, b, i + 1) for i, l in enumerate(LETTERS) for x in (l, l.upper()) for y, b in (('', 1024), ('iB', 1024), ('B', 1000))]
M64 = (1 << 64) - 1

def prepare(tier):
    build.compile_all(CFG, 'tools')

def tasks(tier):
    nd = [1, 2, 3, 4, 7, 10, 13, 16, 18, 19, 20, 21] if tier == 'quick' else list(range(1, 25)) + [30, 40]
    t = [('any string', any_string, ())]
    t += [('%d digits %s' % (n, ' '.join(s[0] or '-' for s in g)), exact, (n, g)) for n in nd for g in groups(SUFFIX, 8)]
    t += [('%d.%s%s' % (n, 'd' * k, x), fraction, (n, k, 0, x)) for n in ([1, 2, 5, 12, 17, 19] if tier == 'quick' else range(1, 21)) for k in (1, 2) for x in ([l + 'B' for l in LETTERS] if tier == 'quick' else [l + 'B' for l in LETTERS + LETTERS.upper()])]
    t += [('tail %d %s' % (m, p), tails, (n, m, p)) for m in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5)) for p in '.,' for n in (1, 3)]
    t += [('no digits', tails, (0, m, '.')) for m in (1, 2)]
    t += [('setter', setter, ()), ('refusals', refusals, ())]
    return t

def groups(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]

class Setup:
    def __init__(self, point=None, faults=True, null=()):
        self.P = tools()
        self.f = func(self.P, NAME)
        if len(self.f.args) != 4:
            raise AnchorError('%s does not take four arguments' % NAME)
        self.I = I = interp_for(self.P, point=point, faults=faults)
        self.st = st = State()
        self.size = I.new(st, 'arg', 'size', 8, content=Cells({0: (8, tm.sym('old_size', 64))}, UNDEF))
        self.e = self.err = I.new(st, 'arg', 'error', 8, content=Cells({0: (8, tm.const(0, 64))}, UNDEF))
    def string(self, chars):
        """a string of the given character terms"""
        c = {i: (1, t) for i, t in enumerate(chars)}
        c[len(chars)] = (1, tm.const(0, 8))
        p = self.I.new(self.st, 'arg', 'byte_size_string', len(chars) + 1, content=Cells(c, UNDEF), writable=False)
        return p, tm.const(len(chars), 64)
    def run(self, p, n):
        outs = self.I.run(self.f, [p, n, self.size, self.e], self.st)
        return outs
    def trouble(self, R, rule='reads stay within the string'):
        for F in self.I.findings:
            if F.kind in ('oob', 'wild', 'uaf', 'null', 'rowrite', 'uninit', 'format'):
                R.finding(rule, F)
        if not self.I.findings:
            R.ok(rule)
        R.absorb(self.I)

def any_string(R):
    S = Setup()
    I, st = S.I, S.st
    n = tm.sym('length', 64, 0, (1 << 62))
    e = ea(n.ts[0][0])
    seq = Seq('CHARS', secret=False, lo=1)
    p = I.new(st, 'arg', 'byte_size_string', eaddc(e, 1), content=Segs(((ZERO, e, src(seq)), (e, eaddc(e, 1), fill(tm.const(0, 8))))), writable=False)
    I.strings[p.oid] = e
    outs = S.run(p, n)
    S.trouble(R)
    for s, v in outs:
        failed = s.mon.get('failed')
        R.check('refused with an error', True if ret_is(v, 1) or ret_is(v, -1) else (False if isinstance(v, tm.Term) and not v.ts else None), S.f, 'returns %r' % v, exact=s.fuzzy is None, path=s.path)
        w = I.load(s, S.size, 8, None)
        if ret_is(v, -1):
            R.check('refused with an error', err_value(I, s, S), S.f, 'a string is refused without an error', exact=s.fuzzy is None, path=s.path)
        elif failed:
            R.check('refused with an error', False, S.f, '%s failed but the string is accepted' % failed[0][0], exact=s.fuzzy is None, path=s.path)
        else:
            R.check('refused with an error', True, S.f, '')

def value(ds):
    e = ZERO
    for d in ds:
        e = eadd(emul(e, 10), d)
    return e

def exact(R, n, group):
    for suf, base, power in group:
        S = Setup(point=ord('.'), faults=False)
        S.I.general = False
        S.I.MAXDISJ = 400
        chars = [tm.sym('c%d' % i, 8, 48, 57) for i in range(n)]
        ds = [eaddc(ea(c.ts[0][0]), -48) for c in chars]
        p, ln = S.string(chars + [tm.const(ord(x), 8) for x in suf])
        outs = S.run(p, ln)
        I = S.I
        S.trouble(R)
        want = emul(value(ds), base ** power)
        over = eaddc(want, -(M64 + 1))
        name = '%d digits followed by %r' % (n, suf)
        won = False
        for s, v in outs:
            ex = s.fuzzy is None
            if ret_is(v, 1):
                won = True
                got = I.load(s, S.size, 8, None)
                t = want_term(chars, base ** power)
                if not isinstance(got, tm.Term) or not got.exact:
                    r = None
                elif s.cons.entails(over):
                    r = False
                elif not s.cons.refutes(over):
                    r = False if boundary(s, chars, base ** power, True) or witness(s, over) else None
                else:
                    r = True if got is t or tm.sub(got, t).ts == () and tm.sub(got, t).c == 0 else equal(s, got, t, chars)
                R.check('converted to the stated number of bytes', r, S.f, '%s is converted to %s' % (name, shown(got)), exact=ex, path=s.path, sample=name)
            elif ret_is(v, -1):
                if s.cons.entails(over):
                    r = True
                else:
                    # a string that fits and takes this path
                    r = False if boundary(s, chars, base ** power, False) or witness(s, esub(ec(M64), want)) else None
                R.check('only a size that does not fit is refused', r, S.f, '%s: a size that fits in 64 bits is refused' % name, exact=ex, path=s.path)
            else:
                R.check('converted to the stated number of bytes', False if isinstance(v, tm.Term) and not v.ts else None, S.f, '%s: returns %r' % (name, v), exact=ex, path=s.path)
        if not won:
            R.check('converted to the stated number of bytes', False if all(s.fuzzy is None for s, v in outs) else None, S.f, '%s is never accepted' % name)

def fraction(R, n, k, more, suf):
    """n digits, the decimal point and k digits before a unit that is a power of 1000"""
    S = Setup(point=ord('.'), faults=False)
    I = S.I
    I.general = False
    I.MAXDISJ = 400
    chars = [tm.sym('c%d' % i, 8, 48, 57) for i in range(n)]
    frac = [tm.sym('f%d' % i, 8, 48, 57) for i in range(k)]
    p, ln = S.string(chars + [tm.const(46, 8)] + frac + [tm.const(ord(x), 8) for x in suf])
    outs = S.run(p, ln)
    S.trouble(R)
    power = LETTERS.index(suf[0].lower()) + 1
    unit = 1000 ** power // 10 ** k
    every = chars + frac
    ds = [eaddc(ea(c.ts[0][0]), -48) for c in every]
    want = emul(value(ds), unit)
    over = eaddc(want, -(M64 + 1))
    t = want_term(every, unit)
    name = '%d digits, %d digits after the point and %r' % (n, k, suf)
    won = False
    for s, v in outs:
        ex = s.fuzzy is None
        if ret_is(v, 1):
            won = True
            got = I.load(s, S.size, 8, None)
            if not isinstance(got, tm.Term) or not got.exact:
                r = None
            elif s.cons.entails(over):
                r = False
            elif not s.cons.refutes(over):
                r = False if boundary(s, every, unit, True) or witness(s, over) else None
            else:
                r = True if got is t or tm.sub(got, t).ts == () and tm.sub(got, t).c == 0 else None
                if r is None:
                    e = term_e(s.cons, got)
                    r = None if e is None else is_zero(s, esub(e, want))
                if r is None:
                    r = equal(s, got, t, every)
            R.check('fractions', r, S.f, '%s is converted to %s' % (name, shown(got)), exact=ex, path=s.path, sample=name)
        elif ret_is(v, -1):
            r = True if s.cons.entails(over) else (False if boundary(s, every, unit, False) or witness(s, esub(ec(M64), want)) else None)
            R.check('fractions', r, S.f, '%s: a size that fits in 64 bits is refused' % name, exact=ex, path=s.path)
        else:
            R.check('fractions', False if isinstance(v, tm.Term) and not v.ts else None, S.f, '%s: returns %r' % (name, v), exact=ex, path=s.path)
    if not won:
        R.check('fractions', False if all(s.fuzzy is None for s, v in outs) else None, S.f, '%s is never accepted' % name)

def want_term(chars, f):
    t = tm.const(0, 64)
    for c in chars:
        t = tm.add(tm.mulc(t, 10), tm.add(tm.zext(c, 64), tm.const(-48, 64)))
    return tm.mulc(t, f)

def witness(s, e):
    c = s.cons.add(e)
    return None if c is None else model(s, c)

def boundary(s, chars, f, over):
    """a digit string next to the 64-bit limit that takes this path"""
    if s.loose:
        return None
    n = len(chars)
    q = M64 // f
    cand = [q + d for d in ((1, 2, 3, 4, 5, 6, 10, 15) if over else (0, -1, -2, -5, -9))] + ([10 ** n - 1] if over else [0, 1])
    for p in (1, 10, 100, 1000) if over else ():
        cand += [(q // p + d) * p + e for d in (0, 1) for e in (0, 5, 9)]
    for v in cand:
        t = str(v).rjust(n, '0')
        if v < 0 or len(t) != n or (v * f > M64) != over:
            continue
        env = {c.ts[0][0]: ord(x) for c, x in zip(chars, t)}
        try:
            if all(dom.evalexpr(r, env) >= 0 for r in s.cons.rows):
                return t
        except (dom.NoModel, KeyError):
            return None
    return None

def model(s, c):
    return None if s.loose else dom.model(c, ec(1))

def equal(s, got, want, chars):
    """terms that are not identical: is there a string for which they differ?"""
    for e in (ec(1),):
        m = model(s, s.cons)
        if not m:
            continue
        try:
            env = dict(m)
            a, b = dom.evalterm(got, env), dom.evalterm(want, env)
        except dom.NoModel:
            continue
        if a != b:
            return False
    for pat in ('1', '9', '10', '12345678901234567890', '01', '90'):
        env, ok = {}, True
        c = s.cons
        for i, ch in enumerate(chars):
            v = ord(pat[i % len(pat)])
            env[ch.ts[0][0]] = v
            c = c.addeq(eaddc(ea(ch.ts[0][0]), -v)) if c is not None else None
        if c is None:
            continue
        try:
            if dom.evalterm(got, env) != dom.evalterm(want, env):
                return False
        except dom.NoModel:
            return None
    return None

def shown(t):
    r = repr(t)
    return r if len(r) < 60 else 'another value'

def tails(R, n, m, point):
    """digits and then any characters that are not one of the suffixes"""
    S = Setup(point=ord(point), faults=False)
    I = S.I
    I.general = False
    I.MAXDISJ = 400
    dg = [tm.sym('c%d' % i, 8, 48, 57) for i in range(n)]
    ts = [tm.sym('t%d' % i, 8, 1, 255) for i in range(m)]
    p, ln = S.string(dg + ts)
    outs = S.run(p, ln)
    S.trouble(R)
    nd = 0
    for s, v in outs:
        ex = s.fuzzy is None
        if ret_is(v, -1):
            R.check('unknown suffix', err_value(I, s, S), S.f, 'a string is refused without an error', exact=ex, path=s.path)
            continue
        if not ret_is(v, 1):
            R.check('unknown suffix', False if isinstance(v, tm.Term) and not v.ts else None, S.f, 'returns %r' % v, exact=ex, path=s.path)
            continue
        r, what = suffixes(s, ts, point)
        R.check('unknown suffix', r, S.f, 'the suffix %r is accepted' % what, exact=ex, path=s.path, sample='digits and %d more characters' % m)

def feasible(s, c, t, v):
    return c.addeq(eaddc(ea(t.ts[0][0]), -v))

def suffixes(s, ts, point):
    def vals(c, t, skip):
        a = ea(t.ts[0][0])
        for v in range(1, 256):
            if v in skip:
                continue
            x = c.addeq(eaddc(a, -v))
            if x is not None:
                yield v, x
    res = True
    units = {ord(x) for l in LETTERS + 'zy' for x in (l, l.upper())}
    def iB(c, i, pre):
        """what may stand at position i: nothing, B, or iB"""
        if i >= len(ts):
            return True, ''
        bad = None
        for v, x in vals(c, ts[i], {ord('B')}):
            if v == ord('i'):
                if i + 1 >= len(ts):
                    r = (False if model(s, x) else None), pre + 'i'
                else:
                    r = True, ''
                    for w, y in vals(x, ts[i + 1], {ord('B')}):
                        r = (False if model(s, y) else None), pre + 'i' + chr(w)
                        break
            else:
                r = (False if model(s, x) else None), pre + chr(v)
            if r[0] is False:
                return r
            if r[0] is None:
                bad = r
        return bad or (True, '')
    skip = set(range(48, 58)) | {ord(point), ord(' ')}
    und = None
    for v, x in vals(s.cons, ts[0], skip):
        if v in units:
            r = iB(x, 1, chr(v))
        elif v == ord('B'):
            continue
        elif v == ord('i'):
            if len(ts) < 2:
                r = (False if model(s, x) else None), 'i'
            else:
                r = True, ''
                for w, y in vals(x, ts[1], {ord('B')}):
                    r = (False if model(s, y) else None), 'i' + chr(w)
                    break
        else:
            r = (False if model(s, x) else None), chr(v)
        if r[0] is False:
            return r
        if r[0] is None:
            und = r
    return und or (True, '')

def refusals(R):
    for null in ('string', 'size'):
        S = Setup()
        p, ln = S.string([tm.const(ord('4'), 8)])
        nul = tm.const(0, 64)
        outs = S.I.run(S.f, [nul if null == 'string' else p, ln, nul if null == 'size' else S.size, S.e], S.st)
        S.trouble(R)
        for s, v in outs:
            R.check('refused with an error', ret_is(v, -1), S.f, 'a missing %s is not refused' % null, exact=s.fuzzy is None, path=s.path)

def setter(R):
    """the value takes effect exactly when it can be the size of a buffer"""
    P = tools()
    f = func(P, SET)
    lay = P.layout('sum_handle')
    if lay is None or 'process_buffer_size' not in lay[1]:
        raise AnchorError('the sum handle has no process buffer size')
    size, fields = lay
    off, n, _ = fields['process_buffer_size']
    V = tm.sym('value', 64, 0, M64)
    old = tm.sym('old', n * 8, 0, (1 << (n * 8)) - 1)
    def convert(I, st, c):
        s, ln, out, err = c.args
        ok = isinstance(s, Ptr) and s == I.given and isinstance(ln, tm.Term) and ln is toterm(I.strings[s.oid], 64)
        st.mon['args'] = bool(ok)
        s2 = st.fork()
        set_error(I, s2, c, err)
        fail(s2, c.name, c.ins)
        I.store(st, out, 8, V, c.ins)
        return [(s2, minus1()), (st, tm.const(1, 32))]
    I = interp_for(P, {NAME: convert})
    st = State()
    h = I.new(st, 'arg', 'sum_handle', size, content=Cells({off: (n, old)}, TOP))
    L = tm.sym('length', 64, 0, 1 << 62)
    e = ea(L.ts[0][0])
    I.given = p = I.new(st, 'arg', 'string', eaddc(e, 1), content=Segs(((ZERO, e, src(Seq('CHARS', secret=False, lo=1))), (e, eaddc(e, 1), fill(tm.const(0, 8))))), writable=False)
    I.strings[p.oid] = e
    er = I.new(st, 'arg', 'error', 8, content=Cells({0: (8, tm.const(0, 64))}, UNDEF))
    outs = I.run(f, [h, p, er], st)
    R.absorb(I)
    for F in I.findings:
        if F.kind in ('oob', 'wild', 'null', 'uninit'):
            R.finding('buffer size in effect', F)
    LIM = (1 << 63) - 1
    for s, v in outs:
        ex = s.fuzzy is None
        got = I.load(s, Ptr(h.oid, ec(off)), n, None)
        if 'args' in s.mon:
            R.check('buffer size in effect', s.mon['args'], f, 'the parser is not given the string and its length', exact=ex, path=s.path)
        if s.mon.get('failed'):
            R.check('buffer size in effect', got is old and ret_is(v, -1), f, 'a string that is refused changes the buffer size or is reported as success', exact=ex, path=s.path)
        elif got is old:
            r = s.cons.entails(eaddc(ea(V.ts[0][0]), -(LIM + 1)))
            if not r:
                r = False if witness(s, esub(ec(LIM), ea(V.ts[0][0]))) else None
            R.check('buffer size in effect', r, f, 'a usable size does not take effect', exact=ex, path=s.path)
            R.check('buffer size in effect', None if ret_is(v, 1) is None else not ret_is(v, 1), f, 'success is reported although the size does not take effect', exact=ex, path=s.path)
        else:
            r = True if got is V else (False if isinstance(got, tm.Term) and got.exact else None)
            R.check('buffer size in effect', r, f, 'another value takes effect: %s' % shown(got), exact=ex, path=s.path)
            over = eaddc(ea(V.ts[0][0]), -(LIM + 1))
            r = True if s.cons.refutes(over) else (False if witness(s, over) else None)
            R.check('buffer size in effect', r, f, 'a size above SSIZE_MAX takes effect', exact=ex, path=s.path)
            R.check('buffer size in effect', ret_is(v, 1), f, 'the size takes effect but %r is returned' % v, exact=ex, path=s.path)
