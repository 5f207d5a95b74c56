"""Abstract memory: every object is a sequence of segments with symbolic bounds.

A segment is (lo, hi, kind), lo and hi linear expressions, kind one of
  ('v', value, n)            one value of n bytes
  ('it', base, d, terms)     byte base + d*t + j  is  terms[j] with $k := t
  ('undef',)                 never written
  ('top',)                   unknown
An object all of whose accesses so far had constant offsets is kept as a plain
table of cells."""
from . import terms as tm, dom
from .dom import ec, ea, eadd, esub, eaddc, emul, econst, ZERO

KATOM = tm.atom('sym', ('$k',), 64, 0, (1 << 63) - 1)
K = tm.T(64, 0, ((KATOM, 1),))
UNDEF, TOP, TOPS = ('undef',), ('top',), ('top', True)

class Ptr:
    __slots__ = ('oid', 'off')
    secret = False
    def __init__(self, oid, off=ZERO):
        self.oid, self.off = oid, off
    def __eq__(self, o):
        return isinstance(o, Ptr) and o.oid == self.oid and o.off == self.off
    def __hash__(self):
        return hash((self.oid, self.off))
    def __repr__(self):
        return '&%s%s' % (self.oid, '' if self.off == ZERO else '+' + dom.eshow(self.off))

class Unknown:
    """a value nothing is known about"""
    __slots__ = ()
    secret = False
    def __repr__(self):
        return '?'
UNKNOWN = Unknown()

class Seq:
    """a named, immutable sequence of bytes (the contents of an input, say)"""
    def __init__(self, name, secret=True, exact=True, lo=0, hi=255):
        self.name, self.secret, self.exact, self.lo, self.hi = name, secret, exact, lo, hi
    def __repr__(self):
        return self.name

_cat = {}
class CatSeq:
    """a sequence given by segments; interned"""
    def __init__(self, segs):
        self.segs = segs
        self.secret = any(_segsecret(s) for s in segs)
        self.exact = not any(s[2][0] in ('undef', 'top') for s in segs)
    def __repr__(self):
        return '<' + '|'.join('%s..%s:%s' % (dom.eshow(l), dom.eshow(h), segshow(k)) for l, h, k in self.segs) + '>'
    def atoms(self):
        r = []
        for l, h, k in self.segs:
            r += [a for a, _ in l[1]] + [a for a, _ in h[1]]
            if k[0] == 'v' and isinstance(k[1], tm.Term):
                r += [a for a, _ in k[1].ts]
            elif k[0] == 'it':
                r += [a for t in k[3] for a, _ in t.ts]
        return r
def catseq(segs):
    segs = tuple(segs)
    r = _cat.get(segs)
    if r is None:
        r = _cat[segs] = CatSeq(segs)
    return r
def _segsecret(s):
    k = s[2]
    if k[0] == 'v':
        return getattr(k[1], 'secret', False)
    if k[0] == 'it':
        return any(t.secret for t in k[3])
    return k == TOPS

def holds_secret(m):
    if isinstance(m, Cells):
        return any(getattr(v, 'secret', False) for n, v in m.c.values()) or _segsecret((0, 0, m.gap))
    return any(_segsecret(s) for s in m.s)
def segshow(k):
    if k[0] == 'v':
        return repr(k[1])
    if k[0] == 'it':
        return ','.join(map(repr, k[3]))
    return k[0]

def fn(term):
    return ('it', ZERO, 1, (term,))
def fill(t):
    return ('it', ZERO, 1, (t,))
def src(seq, delta=ZERO):
    """byte i is seq[i + delta]"""
    return fn(tm.ld(seq, toterm(eadd(ea(KATOM), delta), 64)))

def toterm(e, w=64):
    return tm._mk(w, e[0], dict(e[1]))

class NeedSplit(Exception):
    """the analysis needs to know the sign of an expression: e >= 0 or e <= -1"""
    def __init__(self, e):
        self.e = e

class Cells:
    """contents by constant offset"""
    __slots__ = ('c', 'gap', '_key', '_segs')
    def __init__(self, c, gap):
        self.c, self.gap, self._key, self._segs = c, gap, None, None
    def key(self):
        if self._key is None:
            self._key = ('c', frozenset(self.c.items()), self.gap)
        return self._key

class Segs:
    __slots__ = ('s', '_key')
    def __init__(self, s):
        self.s, self._key = tuple(s), None
    def key(self):
        return ('s', self.s)

def gapbyte(gap, off):
    if gap[0] == 'it':
        return it_at(gap, ec(off))
    return None

def it_at(k, pos):
    """byte of an 'it' segment at expression pos, or None"""
    _, base, d, terms = k
    if d == 1:
        t = terms[0]
        if not t.ts:
            return t
        return substk(t, esub(pos, base))
    x = esub(pos, base)
    if any(c % d for _, c in x[1]):
        return None
    j = x[0] % d
    q = ((x[0] - j) // d, tuple((a, c // d) for a, c in x[1]))
    t = terms[j]
    return t if not t.ts else substk(t, q)

_sk = {}
def substk(t, e):
    key = (t, e)
    r = _sk.get(key)
    if r is None:
        v = toterm(e, 64)
        r = _sk[key] = tm.rewrite(t, lambda a: v if a is KATOM else None)
    return r

def subst_term(t, m):
    """substitute atoms by 64-bit terms"""
    if not isinstance(t, tm.Term):
        return t
    return tm.rewrite(t, lambda a: m.get(a))

def vbyte(v, n, i, big):
    """byte i (address order) of an n-byte value"""
    if isinstance(v, tm.Term):
        return tm.byte(v, n - 1 - i if big else i)
    return None

def read_cells(m, off, n, big, size=None):
    """(value, problem) of n bytes at constant offset"""
    c = m.c.get(off)
    if c is not None and c[0] == n:
        return c[1], None
    bs = []
    for i in range(n):
        o = off + i
        b, prob = None, None
        hit = None
        for back in range(0, 17):
            x = m.c.get(o - back)
            if x is not None:
                if x[0] > back:
                    hit = (x, back)
                break
        if hit:
            (ln, v), bk = hit
            b = v if ln == 1 else vbyte(v, ln, bk, big)
            if b is None or not isinstance(b, tm.Term):
                return UNKNOWN, 'split pointer'
        else:
            if m.gap == UNDEF:
                return UNKNOWN, 'undef'
            if m.gap[0] == 'top':
                return UNKNOWN, None
            b = gapbyte(m.gap, o)
            if b is None:
                return UNKNOWN, None
        bs.append(b)
    if big:
        bs.reverse()
    return tm.concat(bs), None

def write_cells(m, off, n, v, big):
    c = dict(m.c)
    for back in range(-n + 1, 17):
        o = off - back
        x = c.get(o)
        if x is None:
            continue
        if o >= off + n or o + x[0] <= off:
            continue
        # overlapping cell: keep the bytes outside
        del c[o]
        if o >= off and o + x[0] <= off + n:
            continue
        for i in range(x[0]):
            if not (off <= o + i < off + n):
                b = vbyte(x[1], x[0], i, big)
                c[o + i] = (1, b if b is not None else UNKNOWN)
    c[off] = (n, v)
    return Cells(c, m.gap)

def to_segs(m, size):
    """segments of a cell table; size is an expression or None"""
    if isinstance(m, Segs):
        return m
    if m._segs is not None and m._segs[0] == size:
        return m._segs[1]
    out, pos = [], 0
    for off in sorted(m.c):
        n, v = m.c[off]
        if off > pos:
            out.append((ec(pos), ec(off), m.gap))
        out.append((ec(off), ec(off + n), ('v', v, n)))
        pos = off + n
    hi = size if size is not None else ec(1 << 62)
    if not (econst(hi) and hi[0] <= pos):
        out.append((ec(pos), hi, m.gap))
    m._segs = (size, Segs(out))
    return m._segs[1]

def same_mem(cons, a, b, size):
    if a.key() == b.key():
        return True
    if type(a) is type(b) and isinstance(a, Cells):
        return False
    return norm(cons, to_segs(a, size).s) == norm(cons, to_segs(b, size).s)

def le(cons, a, b):
    """a <= b: True, False or None"""
    d = esub(b, a)
    if not d[1]:
        return d[0] >= 0
    if cons.entails(d):
        return True
    if cons.refutes(d):
        return False
    return None

def need_le(cons, a, b):
    r = le(cons, a, b)
    if r is None:
        raise NeedSplit(esub(b, a))
    return r

def cut(cons, segs, at, big):
    """split the segment list at an expression; returns (left, right)"""
    for i, (lo, hi, k) in enumerate(segs):
        a = le(cons, at, lo)
        if a is None:
            if k[0] != 'v' and cons.entails(esub(at, lo)) and cons.entails(esub(hi, at)):
                # the left part may be empty
                return segs[:i] + ((lo, at, k),), ((at, hi, k),) + segs[i + 1:]
            raise NeedSplit(esub(lo, at))
        if a:
            return segs[:i], segs[i:]
        if need_le(cons, hi, at):
            continue
        # lo < at < hi
        if k[0] == 'v':
            d = esub(at, lo)
            if econst(d):
                bs = [vbyte(k[1], k[2], j, big) for j in range(k[2])]
                l = tuple((eaddc(lo, j), eaddc(lo, j + 1), ('v', b if b is not None else UNKNOWN, 1)) for j, b in enumerate(bs[:d[0]]))
                r = tuple((eaddc(lo, d[0] + j), eaddc(lo, d[0] + j + 1), ('v', b if b is not None else UNKNOWN, 1)) for j, b in enumerate(bs[d[0]:]))
                return segs[:i] + l, r + segs[i + 1:]
            return segs[:i] + ((lo, at, TOP),), ((at, hi, TOP),) + segs[i + 1:]
        return segs[:i] + ((lo, at, k),), ((at, hi, k),) + segs[i + 1:]
    return segs, ()

def norm(cons, segs):
    """merge adjacent segments of the same content, drop provably empty ones"""
    out = []
    for s in segs:
        lo, hi, k = s
        if lo == hi or (not econst(esub(hi, lo)) and cons.entails(esub(lo, hi))):
            continue
        if k[0] == 'v' and k[2] == 1 and isinstance(k[1], tm.Term) and not k[1].ts:
            k = fill(k[1])
        if out:
            l2, h2, k2 = out[-1]
            if k == k2 and k[0] != 'v' and (k[0] != 'it' or k[2] == 1 or True) and (h2 == lo or cons.entails_eq(esub(h2, lo))):
                out[-1] = (l2, hi, k)
                continue
        out.append((lo, hi, k))
    return tuple(out)

def put(cons, m, lo, hi, kinds, big):
    """overwrite [lo, hi) by the segments kinds (already positioned)"""
    l, r = cut(cons, m.s, lo, big)
    _, r = cut(cons, r, hi, big)
    return Segs(l + tuple(kinds) + r)

def extract(cons, m, lo, hi, big):
    """the segments of [lo, hi)"""
    _, r = cut(cons, m.s, lo, big)
    c, _ = cut(cons, r, hi, big)
    return c

def shift(segs, d):
    """move segments by expression d"""
    out = []
    for lo, hi, k in segs:
        if k[0] == 'it':
            if k[2] == 1:
                t = k[3][0]
                k = fn(t if not t.ts else substk(t, esub(ea(KATOM), d))) if t.ts else k
            else:
                k = ('it', eadd(k[1], d), k[2], k[3])
        out.append((eadd(lo, d), eadd(hi, d), k))
    return tuple(out)

def read_segs(cons, m, off, n, big, size=None):
    bs = []
    for i in range(n):
        pos = eaddc(off, i)
        b, prob = read_byte(cons, m, pos, n, big, i)
        if prob == 'whole':
            return b, None
        if b is None or not isinstance(b, tm.Term):
            return UNKNOWN, prob
        bs.append(b)
    if big:
        bs = bs[::-1]
    return tm.concat(bs), None

def read_byte(cons, m, pos, n, big, i=0):
    cand = []
    for s in m.s:
        lo, hi, k = s
        a = le(cons, lo, pos)
        if a is False:
            if not cand or True:
                break
        b = le(cons, eaddc(pos, 1), hi)
        if b is False:
            continue
        if a and b:
            cand = [s]
            break
        cand.append(s)
    if not cand:
        return None, 'oob'
    if len(cand) > 1:
        # not decided which: name the byte of the concatenation
        if all(s[2][0] in ('it',) or (s[2][0] == 'v') for s in cand):
            cs = catseq(norm(cons, tuple(cand)))
            if len(cs.segs) > 1:
                return tm.ld(cs, toterm(pos)), None
            cand = list(cs.segs)
        elif any(s[2][0] == 'undef' for s in cand):
            raise NeedSplit(esub(cand[0][1], eaddc(pos, 1)))
        else:
            return None, None
    lo, hi, k = cand[0]
    if k[0] == 'undef':
        return None, 'undef'
    if k[0] == 'top':
        return None, None
    if k[0] == 'v':
        d = esub(pos, lo)
        if not econst(d):
            return tm.ld(catseq([cand[0]]), toterm(pos)), None
        if i == 0 and d[0] == 0 and k[2] == n:
            return k[1], 'whole'
        return vbyte(k[1], k[2], d[0], big), None
    b = it_at(k, pos)
    return b, None

def resolve(cons, t):
    """decide the bytes of concatenations the constraints now determine"""
    if not isinstance(t, tm.Term):
        return t
    def f(a):
        if a.kind == 'ld' and isinstance(a.args[0], CatSeq):
            idx = resolve(cons, a.args[1])
            e = tm.nowrap(idx)
            pos = (e[0], tuple(sorted(e[1], key=lambda x: x[0].id))) if e is not None else term_e(cons, idx)
            if pos is None:
                return None
            b, _ = read_byte(cons, Segs(a.args[0].segs), pos, 1, False)
            if isinstance(b, tm.Term):
                if b is not tm.T(8, 0, ((a, 1),)):
                    return resolve(cons, b)
        return None
    return tm.rewrite(t, f)

# integer expressions that a term is congruent to, as the operations that made it suggest
congruent = {}
def remember(op, a, b, r):
    if r.secret or r in congruent or not r.ts or tm.nowrap(r) is not None:
        return
    def ex(t):
        n = tm.nowrap(t)
        if n is not None:
            return (n[0], tuple(sorted(n[1], key=lambda x: x[0].id)))
        return congruent.get(t)
    x, y = ex(a), ex(b)
    if x is None or y is None:
        return
    if op == 'mul' and (econst(x) or econst(y)):
        congruent[r] = emul(x, y[0]) if econst(y) else emul(y, x[0])
    elif op == 'add':
        congruent[r] = eadd(x, y)
    elif op == 'sub':
        congruent[r] = esub(x, y)
    elif op == 'shl' and econst(y) and y[0] < r.w:
        congruent[r] = emul(x, 1 << y[0])

def term_e(cons, t):
    """the unsigned integer value of a term as a linear expression, if determined"""
    n = tm.nowrap(t)
    if n is not None:
        return (n[0], tuple(sorted(n[1], key=lambda x: x[0].id)))
    w = t.w
    e = dom.emk(tm.sgn(t.c, w), {a: tm.sgn(k, w) for a, k in t.ts})
    m = 1 << w
    lo, hi = dom.ebounds(e)
    q0, q1 = lo >> w, hi >> w
    for q in ((0, -1, 1) if q1 - q0 > 8 else range(q0, q1 + 1)):
        x = eaddc(e, -q * m)
        if cons.entails(x) and cons.entails(esub(ec(m - 1), x)):
            return x
    x = congruent.get(t)
    if x is not None and cons.entails(x) and cons.entails(esub(ec(m - 1), x)):
        return x
    return None
