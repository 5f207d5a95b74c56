"""The size formatter, decided on its IR: the sizes are partitioned at the powers of the unit and
at ten times these; in each part the size is symbolic, the divisions become linear facts (dividend =
divisor * quotient + remainder) and the number, the decimal and the suffix handed to the printing
function are compared with the quotient and remainder of the size by the unit's power."""
from ..sumtool import *
from .. import sumtool

LEVEL = 'proof'
ASSUMPTIONS = ['units other than 1000 and 1024, and strings of fewer than nine characters, are only checked for memory safety', 'snprintf prints as the C standard says']
MINIMUM = {'whole units': 20, 'decimal': 10, 'unit suffix': 20, 'fits or fails': 20, 'memory': 20}
NAME = 'byte_size_string_create'
LETTERS = 'KMGTPE'
M64 = (1 << 64) - 1
NUL = tm.const(0, 64)

def prepare(tier):
    build.compile_all(CFG, 'tools')

def parts(u):
    """(lowest, highest, power, whether a decimal is shown)"""
    out = [(0, u - 1, 0, False)]
    k = 1
    while u ** k <= M64:
        out.append((u ** k, min(10 * u ** k - 1, M64), k, True))
        if 10 * u ** k <= M64:
            out.append((10 * u ** k, min(u ** (k + 1) - 1, M64), k, False))
        k += 1
    return out

def tasks(tier):
    t = [('%d: %d-%d' % (u, lo, hi), part, (u, lo, hi, k, d, f)) for u in (1000, 1024) for lo, hi, k, d in parts(u) for f in (False, True)]
    t += [('refusals', refusals, ())]
    return t

def printing(I, st, c):
    f = libc.cstring(I, st, c.args[2])
    st.mon['$text'] = None if f is None or '$text' in st.mon else pieces(I, st, f, c.args[3:])
    st.mon['$into'] = tuple(c.args[:2])
    return sumtool.snprintf(I, st, c)

def pieces(I, st, f, args):
    """the printed text: strings, ('d', number), ('c', character)"""
    out, i, pos = [], 0, 0
    for m in libc.FMT.finditer(f):
        out.append(f[pos:m.start()])
        pos = m.end()
        k = m.group(5)
        if k == '%':
            out.append('%')
            continue
        if m.group(1) or m.group(2) or m.group(3) or i >= len(args):
            return None
        a = args[i]
        i += 1
        if k == 's':
            t = libc.cstring(I, st, a) if isinstance(a, Ptr) else None
            if t is None:
                return None
            out.append(t)
        elif k in 'diu':
            if isinstance(a, tm.Term) and m.group(4) in ('hh', 'h'):
                a = tm.trunc(a, 8 if m.group(4) == 'hh' else 16)
            out.append(('d', a, k))
        elif k == 'c' and isinstance(a, tm.Term) and not a.ts:
            out.append(chr(a.c & 255))
        elif k == 'c':
            out.append(('c', a, k))
        else:
            return None
    out.append(f[pos:])
    r = []
    for x in out:
        if isinstance(x, str) and r and isinstance(r[-1], str):
            r[-1] += x
        elif x != '':
            r.append(x)
    return tuple(r)

class Setup:
    def __init__(self, units, size, length=None, faults=False, null=False, point=None):
        self.P = tools()
        self.f = func(self.P, NAME)
        if len(self.f.args) != 5:
            raise AnchorError('%s does not take five arguments' % NAME)
        self.I = I = interp_for(self.P, {'snprintf': printing}, point=point, faults=faults)
        I.fault_primitives = faults
        I.general = False
        I.MAXDISJ = 400
        self.st = st = State()
        self.n = tm.sym('length', 64, 9, (1 << 62)) if length is None else length
        self.ne = term_e(EMPTY, self.n)
        self.old = Seq('OLD', secret=False)
        self.s = I.new(st, 'arg', 'byte_size_string', self.ne, content=Cells({}, src(self.old)))
        self.err = self.e = I.new(st, 'arg', 'error', 8, content=Cells({0: (8, tm.const(0, 64))}, UNDEF))
        self.size = size
        self.args = [NUL if null else self.s, self.n, size, units, self.e]
    def run(self):
        return self.I.run(self.f, self.args, self.st)
    def trouble(self, R):
        for F in self.I.findings:
            if F.kind in ('oob', 'wild', 'uaf', 'null', 'rowrite', 'uninit', 'format', 'div'):
                R.finding('memory', F)
        if not self.I.findings:
            R.ok('memory')
        R.absorb(self.I)

def within(s, lo, x, hi):
    """lo <= x <= hi: True, False with a witness, None"""
    if x is None:
        return None
    a, b = esub(x, lo), esub(hi, x)
    if s.cons.entails(a) and s.cons.entails(b):
        return True
    for d in (a, b):
        c = s.cons.add(eaddc(dom.eneg(d), -1))
        if c is not None and (s.cons.refutes(d) or not s.loose and dom.eexact(d) and dom.model(c, ec(1))):
            return False
    return None

def failed(s):
    return s.mon.get('failed')

def part(R, u, lo, hi, k, dec, faults):
    v = tm.sym('size', 64, lo, hi) if lo < hi else tm.const(lo, 64)
    S = Setup(tm.const(u, 32), v, faults=faults)
    I, f = S.I, S.f
    outs = S.run()
    S.trouble(R)
    size = ea(v.ts[0][0])
    name = 'a size of %d to %d in units of %d' % (lo, hi, u)
    won = 0
    for s, r in outs:
        x = dict(exact=s.fuzzy is None, path=s.path)
        if failed(s):
            R.check('fits or fails', ret_is(r, -1), f, '%s failed but %r is returned' % (failed(s)[0][0], r), **x)
            continue
        ok = ret_is(r, 1)
        R.check('fits or fails', ok, f, 'returns %r for %s although every step succeeds' % (r, name), **x)
        if ok is not True:
            continue
        won += 1
        t, into = s.mon.get('$text'), s.mon.get('$into')
        if t is None:
            for rule in ('whole units', 'unit suffix', 'decimal'):
                R.check(rule, None, f, 'the text of %s' % name)
            continue
        R.check('fits or fails', into[0] == S.s and within(s, ZERO, I.toe(s, into[1]), S.ne), f, 'not printed to the string within its size', **x)
        suffix = ' ' + ('' if k == 0 else LETTERS[k - 1]) + ('B' if u == 1000 or k == 0 else 'iB')
        shape = ['d', 'c', 'd'] if dec else ['d']
        got = [y[0] for y in t if not isinstance(y, str)]
        tail = ''.join(y for y in t if isinstance(y, str))
        flat = got
        if dec and got == ['d', 'd'] and len(t) == 4:
            # a constant decimal point would not follow the locale
            R.check('decimal', False, f, '%s is shown with %r instead of the decimal point of the locale' % (name, t[1]), **x)
            continue
        R.check('decimal', flat == shape and not isinstance(t[0], str), f, '%s is shown as %s' % (name, shown_text(t)), **x)
        if flat != shape:
            continue
        R.check('unit suffix', tail == suffix and t[-1] == suffix, f, '%s is followed by %r instead of %r' % (name, tail, suffix), sample='%s: %r' % (name, suffix), **x)
        q = value(I, s, t[0])
        p = u ** k
        d = None if q is None else esub(size, emul(q, p))
        R.check('whole units', within(s, ZERO, d, ec(p - 1)), f, '%s is shown with another number of units than the whole ones in it' % name, sample=name, **x)
        if dec:
            pt = t[1][1]
            R.check('decimal', None if not isinstance(pt, tm.Term) else 'decimal_point' in repr(pt), f, 'the decimal point of %s is not the one of the locale' % name, **x)
            g = value(I, s, t[2])
            R.check('decimal', within(s, ZERO, g, ec(9)), f, 'the decimal of %s is not one digit' % name, **x)
            if g is not None and d is not None:
                # tenths of the rest: exactly, or one off where the unit is no power of ten
                rest = esub(emul(d, 10), emul(g, p))
                slack = 0 if u == 1000 else p
                R.check('decimal', within(s, ec(-slack), rest, ec(p - 1 + slack)), f, 'the decimal of %s is not the tenths of the rest' % name, sample='%s: decimal' % name, **x)
            else:
                R.check('decimal', None, f, 'the decimal of %s' % name)
    if not won:
        R.check('whole units', False if all(s.fuzzy is None for s, r in outs) else None, f, '%s is never shown' % name)

def value(I, s, item):
    """the number an integer conversion prints"""
    a = item[1]
    if not isinstance(a, tm.Term) or is_undef(a):
        return None
    e = I.toe(s, a)
    if e is not None and item[2] in 'di':
        return e if s.cons.entails(esub(ec((1 << (a.w - 1)) - 1), e)) else None
    return e

def shown_text(t):
    return ''.join(x if isinstance(x, str) else {'d': '<number>', 'c': '<character>'}[x[0]] for x in t)

def refusals(R):
    for what, kw in (('a missing string', {'null': True}), ('a string of fewer than nine characters', {'length': tm.sym('short', 64, 0, 8)})):
        S = Setup(tm.const(1000, 32), tm.sym('size', 64), **kw)
        for s, r in S.run():
            R.check('fits or fails', ret_is(r, -1), S.f, '%s is accepted' % what, exact=s.fuzzy is None, path=s.path)
            R.check('fits or fails', s.mon.get('$into') is None, S.f, '%s is refused after it was printed to' % what, exact=s.fuzzy is None, path=s.path)
        S.trouble(R)
