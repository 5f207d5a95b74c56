"""Loop-invariant analysis of the hexadecimal conversion for every digest size and string size
at once: the loop is generalised to iteration k, the characters it writes become functions of
the k-th digest byte, and each of these functions is compared with the oracle table of all 256
byte values.  Bounds, the terminator and the refusals are decided from the linear constraints
of each path."""
from ..entry import *
from ..runner import Result

LEVEL = 'proof'
CFG = 'fb'
MINIMUM = {'two lower-case digits per byte': 1, 'terminator': 1, 'within the string': 1, 'refused without writing': 4}
NAME = 'digest_hash_copy_to_string'
SIZES = {'md5': 16, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha512': 64}

def prepare(tier):
    build.compile_all(CFG, 'tools')

def tasks(tier):
    t = [('any size', any_size, ()), ('refusals', refusals, ())]
    t += [('size %d' % n, any_size, (n,)) for n in sorted(SIZES.values()) + ([0, 1, 2, 127, 255] if tier == 'thorough' else [1])]
    return t

SMAX = (1 << 63) - 1

class Setup:
    def __init__(self, ds=None, null=()):
        self.P = program(CFG, None, 'tools')
        self.f = func(self.P, NAME)
        if len(self.f.args) != 5:
            raise AnchorError('%s does not take five arguments' % NAME)
        self.I = I = Interp(self.P, dict(libc.BASE), None)
        st = self.st = State()
        self.ds = tm.sym('digest_hash_size', 64, 0, (1 << 64) - 1) if ds is None else tm.const(ds, 64)
        self.ss = tm.sym('string_size', 64, 0, (1 << 64) - 1)
        self.D, self.old = Seq('DIGEST', secret=True), Seq('OLD', secret=False)
        self.de, self.se = term_e(EMPTY, self.ds), term_e(EMPTY, self.ss)
        d = I.new(st, 'arg', 'digest_hash', self.de, content=Cells({}, src(self.D)), writable=False)
        self.s = I.new(st, 'arg', 'string', self.se, content=Cells({}, src(self.old)))
        e = I.new(st, 'arg', 'error', 8, content=Cells({0: (8, tm.const(0, 64))}, UNDEF))
        self.d, self.e = d, e
        nul = tm.const(0, 64)
        self.args = [nul if 'd' in null else d, self.ds, nul if 's' in null else self.s, self.ss, e]
    def run(self):
        return self.I.run(self.f, self.args, self.st)

HEX = '0123456789abcdef'
def any_size(R, n=None):
    size(R, n)
    if n is None and R.unds and not R.bads:
        # what holds for every size is not settled: some of them
        for k in (0, 2, 3, 33, 63, 65, 127, 129, 255, 256, 257):
            r = Result()
            size(r, k)
            R.bads += r.bads

def size(R, n):
    S = Setup(n)
    I, f = S.I, S.f
    outs = S.run()
    R.absorb(I)
    need = eaddc(emul(S.de, 2), 1)
    for F in I.findings:
        if F.kind in ('oob', 'wild', 'uaf', 'null', 'rowrite', 'uninit'):
            R.finding('within the string', F)
    if not any(F.kind == 'oob' for F in I.findings):
        R.ok('within the string', sample='%d accesses' % I.stats['accesses'])
    won = 0
    for s, v in outs:
        ex = s.fuzzy is None
        if ret_is(v, 1) is True:
            won += 1
            r = True if s.cons.entails(esub(S.se, need)) else False if s.cons.refutes(esub(S.se, need)) else None
            R.check('within the string', r, f, 'succeeds although the string is too small', exact=ex, path=s.path)
            (r, msg), s2 = settled(I, s, lambda x: digits(S, I, x))
            R.check('two lower-case digits per byte', r, f, msg, exact=s2.fuzzy is None, path=s.path, sample='any digest size' if n is None else 'size %d' % n)
            (r, msg), s2 = settled(I, s, lambda x: terminator(S, I, x))
            R.check('terminator', r, f, msg, exact=s2.fuzzy is None, path=s.path)
        elif ret_is(v, -1) is True:
            # refused: one of the sizes is out of range
            ok = refused(S, s)
            R.check('accepted when it fits', ok, f, 'a string that can hold the digest is refused', exact=ex, path=s.path)
            (r, msg), s2 = settled(I, s, lambda x: untouched(S, I, x))
            R.check('refused without writing', r, f, msg, exact=s2.fuzzy is None, path=s.path)
        else:
            R.check('accepted when it fits', False if isinstance(v, tm.Term) and not v.ts else None, f, 'returns %r' % v, exact=ex, path=s.path)
    if not won:
        sure = outs and not I.notes and all(s.fuzzy is None and ret_is(v, -1) is True for s, v in outs) and not any(F.kind == 'diverge' for F in I.findings)
        R.check('accepted when it fits', False if sure else None, f, 'never succeeds')

def refused(S, s):
    """the path implies that the arguments are unusable"""
    c = s.cons
    for x in (esub(ec(SMAX), S.de), esub(ec(SMAX), S.se), esub(S.se, eaddc(emul(S.de, 2), 1))):
        c = c.add(x)
        if c is None:
            return True
    return False if not s.loose and dom.infeasible(list(c.rows)) is False and dom.model(c, ec(1)) else None

def untouched(S, I, s):
    r = is_source(s, content(I, s, S.s, ZERO, S.se), S.old, ZERO)
    return r, 'characters are written before the string is refused'

def terminator(S, I, s):
    b = bytes_of(I, s, to_segs(s.mem[S.s.oid], S.se).s, emul(S.de, 2), 1)[0]
    if b is None:
        return None, 'the terminator is not determined'
    if not b.ts:
        return b.c == 0, 'the character after the digits is %d' % b.c
    if any(a.kind == 'ld' and a.args[0] is S.old for a in tm.atoms_of(b)):
        return False, 'no terminator is written after the digits'
    return None, 'the terminator is not determined'

def digits(S, I, s):
    segs = to_segs(s.mem[S.s.oid], S.se).s
    if econst(S.de):
        for i in range(S.de[0]):
            r = digit(S, I, s, segs, ec(i), str(i))
            if r[0] is not True:
                return r
        return True, ''
    i = tm.sym('i', 64, 0, SMAX)
    c = s.cons.add(eaddc(esub(S.de, ea(i.ts[0][0])), -1))
    if c is None:
        return True, ''
    x = s.fork()
    x.cons = c
    return digit(S, I, x, segs, ea(i.ts[0][0]), 'i')

def digit(S, I, s, segs, i, name):
    leaf = tm.ld(S.D, toterm(i)).ts[0][0]
    bs = bytes_of(I, s, segs, emul(i, 2), 2)
    for j, b in enumerate(bs):
        if b is None:
            return None, 'character %d of byte %s is not determined' % (j, name)
        for a in tm.atoms_of(b):
            if a.kind == 'ld' and not hasattr(a.args[0], 'segs') and a is not leaf:
                # another byte, or what the string held before
                d = esub(idx_e(s, a.args[1]), i)
                if a.args[0] is not S.D or s.cons.refutes(d) or s.cons.refutes(dom.eneg(d)):
                    return False, 'character %d of byte %s depends on %s' % (j, name, tm.show_atom(a))
                return None, 'character %d of byte %s depends on %s' % (j, name, tm.show_atom(a))
        for v in range(256):
            r = possible(s, leaf, v)
            if r is False:
                continue
            try:
                got = dom.evalterm(b, {leaf: v})
            except dom.NoModel:
                return None, 'character %d of byte %s is not determined' % (j, name)
            want = ord(HEX[v >> 4 if j == 0 else v & 15])
            if got != want:
                return False if r else None, 'byte 0x%02x is written as %r instead of %r (character %d)' % (v, chr(got), chr(want), j)
    return True, ''

def possible(s, leaf, v):
    """does the path allow this value of the byte?  None: not known"""
    r = True
    for row in s.cons.rows:
        if not any(leaf in tm.atoms_of(tm.T(a.w, 0, ((a, 1),))) for a, _ in row[1]):
            continue
        try:
            if dom.evalexpr(row, {leaf: v}) < 0:
                return False
        except dom.NoModel:
            r = None
    return r

def refusals(R):
    for null in (('d',), ('s',), ('d', 's')):
        S = Setup(null=null)
        outs = S.run()
        R.absorb(S.I)
        for F in S.I.findings:
            if F.kind in ('null', 'wild'):
                R.finding('refused without writing', F)
        for s, v in outs:
            r = ret_is(v, -1)
            R.check('refused without writing', r, S.f, 'a missing argument is not refused', exact=s.fuzzy is None, path=s.path)
            if 's' not in null:
                (r, msg), s2 = settled(S.I, s, lambda x: untouched(S, S.I, x))
                R.check('refused without writing', r, S.f, msg, exact=s2.fuzzy is None)
