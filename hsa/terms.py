"""Value numbering: hash-consed normal forms of machine values.

A Term is a w-bit value  c + sum(coef * atom)  modulo 2^w.  Atoms are interned.
Bitwise expressions are kept as XORs of monomials  mask & (a1 << s1) & (a2 << s2) ...
(an algebraic normal form over whole words), which makes rotations, choice and
majority functions, byte packing and unpacking canonical however they are written.
"""
import zlib

MASKS = {w: (1 << w) - 1 for w in range(1, 129)}

class Atom:
    __slots__ = ('id', 'kind', 'args', 'w', 'lo', 'hi', 'secret', 'exact', '_ev')
    def __repr__(self):
        return show_atom(self)

class Term:
    __slots__ = ('w', 'c', 'ts', 'secret', 'exact', '_anf', 'id')
    def __repr__(self):
        return show(self)
    @property
    def const(self):
        return not self.ts

_atoms = {}
_terms = {}
_alist = []

def reset():
    _atoms.clear(); _terms.clear(); _alist.clear()

def atom(kind, args, w, lo=0, hi=None, secret=False, exact=True):
    k = (kind, args, w)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = len(_alist)
        _alist.append(a)
        a.kind, a.args, a.w, a.lo, a.secret, a.exact = kind, args, w, lo, secret, exact
        a.hi = MASKS[w] if hi is None else hi
        _atoms[k] = a
    return a

def sym(name, w, lo=0, hi=None, secret=False, exact=True):
    return T(w, 0, ((atom('sym', (name, lo, hi, secret), w, lo, hi, secret, exact), 1),))

_fresh = [0]
def fresh(name, w, lo=0, hi=None, secret=False, exact=True):
    _fresh[0] += 1
    return sym('%s#%d' % (name, _fresh[0]), w, lo, hi, secret, exact)

def T(w, c, ts=()):
    k = (w, c, ts)
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.w, t.c, t.ts = w, c, ts
        t.secret = any(a.secret for a, _ in ts)
        t.exact = all(a.exact for a, _ in ts)
        t._anf = None
        t.id = len(_terms)
        _terms[k] = t
    return t

def const(v, w):
    return T(w, v & MASKS[w])

def sgn(c, w):
    return c - (1 << w) if c >> (w - 1) else c

def _mk(w, c, d):
    """normalise a coefficient dict {atom: coef}"""
    m = MASKS[w]
    again = None
    for a in list(d):
        k = d[a] & m
        if not k:
            del d[a]
            continue
        d[a] = k
        if a.kind == 'bits':
            s = sgn(k, w)
            p = -s if s < 0 else s
            if p > 1 and p & (p - 1) == 0:
                again = again or []
                again.append((a, p.bit_length() - 1, -1 if s < 0 else 1))
        elif a.kind == 'lin' and (k == 1 or not a.secret or k & (k - 1)) and (a.w == w or _nowrap_args(a)):
            again = again or []
            again.append((a, None, k))
    if again:
        c0 = c
        ex = {}
        for a, sh, s in again:
            k = d.pop(a)
            if sh is None:
                lc, lts = a.args
                c0 += k * sgn(lc, a.w)
                for x, y in lts:
                    ex[x] = ex.get(x, 0) + k * sgn(y, a.w)
            else:
                t = from_anf(w, {tuple((x, y + sh) for x, y in f): (mk << sh) & m for f, mk in a.args})
                c0 += s * t.c
                for x, y in t.ts:
                    ex[x] = ex.get(x, 0) + s * y
        for x, y in ex.items():
            d[x] = d.get(x, 0) + y
        return _mk(w, c0 & m, d)
    if len(d) > 1 or (c & m and d):
        nb = False
        for a in d:
            if a.kind == 'bits':
                nb = True
        if nb:
            used, ok = c & m, True
            for a, k in d.items():
                if k & (k - 1):
                    ok = False
                    break
                mk = (amask(a) << (k.bit_length() - 1)) & m
                if mk & used:
                    ok = False
                    break
                used |= mk
            if ok:
                r = {(): c & m} if c & m else {}
                for a, k in d.items():
                    s = k.bit_length() - 1
                    for f, q in (a.args if a.kind == 'bits' else ((((a, 0),), amask(a)),)):
                        f = tuple((x, y + s) for x, y in f)
                        r[f] = r.get(f, 0) ^ ((q << s) & m)
                return from_anf(w, r)
    return T(w, c & m, tuple(sorted(d.items(), key=lambda x: x[0].id)))

def _nowrap_args(a):
    lc, lts = a.args
    lo = hi = sgn(lc, a.w)
    for x, k in lts:
        k = sgn(k, a.w)
        if k > 0:
            lo += k * x.lo; hi += k * x.hi
        else:
            lo += k * x.hi; hi += k * x.lo
    return lo >= 0 and hi <= MASKS[a.w]

def irange(t):
    """intrinsic unsigned range (lo, hi) of a term"""
    if not t.ts:
        return t.c, t.c
    lo = hi = sgn(t.c, t.w)
    for a, k in t.ts:
        k = sgn(k, t.w)
        if k > 0:
            lo += k * a.lo; hi += k * a.hi
        else:
            lo += k * a.hi; hi += k * a.lo
    if lo >= 0 and hi <= MASKS[t.w]:
        return lo, hi
    # another reading of the constant may fit
    q = (lo >> t.w) << t.w
    if hi - q <= MASKS[t.w]:
        return lo - q, hi - q
    return 0, MASKS[t.w]

def nowrap(t):
    """the term as integers (c, [(atom, signed coef)]) when it cannot wrap, else None"""
    if not t.ts:
        return t.c, ()
    lo = hi = sgn(t.c, t.w)
    c = lo
    for a, k in t.ts:
        k = sgn(k, t.w)
        if k > 0:
            lo += k * a.lo; hi += k * a.hi
        else:
            lo += k * a.hi; hi += k * a.lo
    q = (lo >> t.w) << t.w
    if hi - q <= MASKS[t.w]:
        return c - q, tuple((a, sgn(k, t.w)) for a, k in t.ts)
    return None

def add(a, b):
    if not a.ts and not b.ts:
        return T(a.w, (a.c + b.c) & MASKS[a.w])
    if not b.ts and not b.c:
        return a
    if not a.ts and not a.c:
        return b
    d = dict(a.ts)
    for x, k in b.ts:
        d[x] = d.get(x, 0) + k
    return _mk(a.w, a.c + b.c, d)

def neg(a):
    return _mk(a.w, -a.c, {x: -k for x, k in a.ts})

def sub(a, b):
    if a is b:
        return T(a.w, 0)
    d = dict(a.ts)
    for x, k in b.ts:
        d[x] = d.get(x, 0) - k
    return _mk(a.w, a.c - b.c, d)

def mulc(a, n):
    return _mk(a.w, a.c * n, {x: k * n for x, k in a.ts})

def mul(a, b):
    if not a.ts:
        return mulc(b, a.c)
    if not b.ts:
        return mulc(a, b.c)
    if len(a.ts) * len(b.ts) <= 16:
        # distribute
        r = T(a.w, a.c * b.c & MASKS[a.w])
        r = add(r, mulc(T(a.w, 0, a.ts), b.c)) if b.c else r
        r = add(r, mulc(T(b.w, 0, b.ts), a.c)) if a.c else r
        for x, k in a.ts:
            for y, j in b.ts:
                p, q = (x, y) if x.id <= y.id else (y, x)
                hi = p.hi * q.hi
                at = atom('mul', (p, q), a.w, p.lo * q.lo if hi <= MASKS[a.w] else 0, hi if hi <= MASKS[a.w] else None, p.secret or q.secret, p.exact and q.exact)
                r = add(r, _mk(a.w, 0, {at: k * j}))
        return r
    return opq('mulx', (a, b) if a.id <= b.id else (b, a), a.w)

def opq(name, args, w, lo=0, hi=None):
    sec = any(getattr(x, 'secret', False) for x in args)
    ex = all(getattr(x, 'exact', True) for x in args)
    return T(w, 0, ((atom('op', (name,) + tuple(args), w, lo, hi, sec, ex), 1),))

# ---- bitwise
def amask(a):
    if a.kind == 'bits':
        m = 0
        for _, k in a.args:
            m |= k
        return m
    return (1 << a.hi.bit_length()) - 1

def linatom(t):
    """the whole (wrapping) sum as one atom"""
    if len(t.ts) == 1 and not t.c and t.ts[0][1] == 1 and t.ts[0][0].lo >= 0 and t.ts[0][0].hi <= MASKS[t.w]:
        return t.ts[0][0]
    lo, hi = irange(t)
    return atom('lin', (t.c, t.ts), t.w, lo, hi, t.secret, t.exact)

def anf(t):
    """{factors: mask}; factors is a sorted tuple of (atom, shift)"""
    if t._anf is not None:
        return t._anf
    w, m = t.w, MASKS[t.w]
    r = None
    if not t.ts:
        r = {(): t.c} if t.c else {}
    elif len(t.ts) == 1 and not t.c:
        a, k = t.ts[0]
        if k == 1 and a.kind == 'bits':
            r = dict(a.args)
        elif k & (k - 1) == 0:
            s = k.bit_length() - 1
            mk = (amask(a) << s) & m
            r = {((a, s),): mk} if a.kind != 'bits' else {tuple((x, y + s) for x, y in f): (q << s) & m for f, q in a.args if (q << s) & m}
    if r is None:
        # a sum with disjoint supports is a XOR
        used, ok, parts = t.c, True, []
        for a, k in t.ts:
            if k & (k - 1):
                ok = False
                break
            s = k.bit_length() - 1
            mk = (amask(a) << s) & m
            if mk & used:
                ok = False
                break
            used |= mk
            parts.append((a, s, mk))
        if ok:
            r = {(): t.c} if t.c else {}
            for a, s, mk in parts:
                if a.kind == 'bits':
                    for f, q in a.args:
                        q = (q << s) & m
                        if q:
                            f = tuple((x, y + s) for x, y in f)
                            r[f] = r.get(f, 0) ^ q
                else:
                    r[((a, s),)] = mk
        else:
            r = {((linatom(t), 0),): amask(linatom(t)) & m}
    t._anf = r
    return r

def from_anf(w, d):
    m = MASKS[w]
    r = {}
    for f, k in d.items():
        k &= m
        # bits of a factor outside its atom are zero
        for a, s in f:
            am = amask(a)
            k &= (am << s) if s >= 0 else (am >> -s)
        if k:
            r[f] = r.get(f, 0) ^ k
            if not r[f]:
                del r[f]
    if not r:
        return T(w, 0)
    if len(r) == 1 and () in r:
        return T(w, r[()])
    # XOR of complete, disjoint single atoms is a sum
    used, ok = 0, True
    for f, k in r.items():
        if used & k:
            ok = False
            break
        used |= k
        if not f:
            continue
        if len(f) != 1 or f[0][1] < 0 or k != (amask(f[0][0]) << f[0][1]) & m:
            ok = False
            break
    if ok:
        c, dd = 0, {}
        for f, k in r.items():
            if not f:
                c = k
            else:
                dd[f[0][0]] = dd.get(f[0][0], 0) + (1 << f[0][1])
        return _mk(w, c, dd)
    items = tuple(sorted(r.items(), key=_fkey))
    sec = ex = None
    sec = any(a.secret for f, _ in items for a, _s in f)
    ex = all(a.exact for f, _ in items for a, _s in f)
    a = atom('bits', items, max(w, 64), 0, (1 << used_mask(r).bit_length()) - 1, sec, ex)
    t = T(w, 0, ((a, 1),))
    if t._anf is None:
        t._anf = r
    return t

def used_mask(r):
    u = 0
    for k in r.values():
        u |= k
    return u

def _fkey(x):
    return (tuple((a.id, s) for a, s in x[0]), x[1])

def xor(a, b):
    if not a.ts and not b.ts:
        return T(a.w, a.c ^ b.c)
    x, y = anf(a), anf(b)
    if len(x) < len(y):
        x, y = y, x
    r = dict(x)
    for f, k in y.items():
        v = r.get(f, 0) ^ k
        if v:
            r[f] = v
        else:
            r.pop(f, None)
    return from_anf(a.w, r)

MAXMON = 400
def _andd(x, y):
    r = {}
    for f, k in x.items():
        for g, j in y.items():
            q = k & j
            if not q:
                continue
            if f == g or not g:
                h = f
            elif not f:
                h = g
            else:
                h = tuple(sorted(set(f) | set(g), key=lambda p: (p[0].id, p[1])))
            v = r.get(h, 0) ^ q
            if v:
                r[h] = v
            else:
                r.pop(h, None)
    return r

def and_(a, b):
    if not a.ts and not b.ts:
        return T(a.w, a.c & b.c)
    x, y = anf(a), anf(b)
    if len(x) * len(y) > MAXMON and len(x) > 1 and len(y) > 1:
        return opq('and', (a, b) if a.id <= b.id else (b, a), a.w)
    return from_anf(a.w, _andd(x, y))

def or_(a, b):
    if not a.ts and not b.ts:
        return T(a.w, a.c | b.c)
    x, y = anf(a), anf(b)
    if used_mask(x) & used_mask(y):
        return xor(xor(a, b), and_(a, b))
    r = dict(x)
    for f, k in y.items():
        r[f] = r.get(f, 0) ^ k
    return from_anf(a.w, r)

def not_(a):
    return xor(a, T(a.w, MASKS[a.w]))

def shl(a, n):
    if n >= a.w:
        return T(a.w, 0)
    if len(a.ts) > 1 and a.secret and n:
        # a shifted sum of data is kept whole
        return from_anf(a.w, {tuple((x, s + n) for x, s in f): k << n for f, k in anf(a).items()})
    return mulc(a, 1 << n)

def lshr(a, n):
    if n == 0:
        return a
    if n >= a.w:
        return T(a.w, 0)
    if not a.ts:
        return T(a.w, a.c >> n)
    return from_anf(a.w, {tuple((x, s - n) for x, s in f): k >> n for f, k in anf(a).items()})

def zext(a, w):
    if not a.ts:
        return T(w, a.c)
    n = nowrap(a)
    if n is not None:
        return _mk(w, n[0], dict(n[1]))
    return from_anf(w, anf(a))

def trunc(a, w):
    if not a.ts:
        return T(w, a.c & MASKS[w])
    if not a.secret and any(x.kind == 'bits' or x.kind == 'lin' and x.w >= w for x, _ in a.ts):
        # a counter of w bits that was widened and advanced: its parts modulo 2^w
        d, c = {}, a.c
        for x, k in a.ts:
            if x.kind == 'lin' and x.w >= w:
                c += k * x.args[0]
                for z, q in x.args[1]:
                    d[z] = d.get(z, 0) + k * q
                continue
            y, s = x, 0
            if x.kind == 'bits' and len(x.args) == 1 and len(x.args[0][0]) == 1:
                z, q = x.args[0][0][0]
                if q >= 0 and x.args[0][1] & MASKS[w] == (amask(z) << q) & MASKS[w]:
                    y, s = z, q
            if y.kind == 'bits':
                break
            d[y] = d.get(y, 0) + (k << s)
        else:
            return _mk(w, c & MASKS[w], {x: k & MASKS[w] for x, k in d.items() if k & MASKS[w]})
    lo, hi = irange(a)
    n = nowrap(a)
    if n is not None and hi <= MASKS[w] and not (a.secret and any(x.kind == 'bits' for x, _ in a.ts)):
        return _mk(w, n[0], dict(n[1]))
    return from_anf(w, {f: k & MASKS[w] for f, k in anf(a).items()})

def ashr(a, n):
    if not a.ts:
        return const(sgn(a.c, a.w) >> n, a.w)
    if irange(a)[1] >> (a.w - 1) == 0:
        return lshr(a, n)
    return opq('ashr', (a, n), a.w)

def sext(a, w):
    if not a.ts:
        return const(sgn(a.c, a.w), w)
    if irange(a)[1] >> (a.w - 1) == 0:
        return zext(a, w)
    return opq('sext', (a, w), w)

def byte(t, i):
    """byte i (0 = least significant) of a term"""
    return trunc(lshr(t, 8 * i), 8) if t.w > 8 else t

def concat(bs):
    """bytes, least significant first"""
    w = 8 * len(bs)
    if len(bs) == 1:
        return bs[0]
    d = {}
    for i, b in enumerate(bs):
        for f, k in anf(b).items():
            f2 = tuple((x, s + 8 * i) for x, s in f)
            d[f2] = d.get(f2, 0) ^ (k << 8 * i)
    return from_anf(w, d)

def rotl(x, n):
    return or_(shl(x, n), lshr(x, x.w - n))
def rotr(x, n):
    return or_(lshr(x, n), shl(x, x.w - n))

# ---- leaves, rewriting, valuation
def atoms_of(t, acc=None, seen=None):
    """all atoms a term is built from, recursively"""
    acc = set() if acc is None else acc
    st = [a for a, _ in t.ts]
    while st:
        a = st.pop()
        if a in acc:
            continue
        acc.add(a)
        st.extend(sub_atoms(a))
    return acc

def sub_atoms(a):
    if a.kind == 'bits':
        return [x for f, _ in a.args for x, _s in f]
    if a.kind == 'lin':
        return [x for x, _ in a.args[1]]
    if a.kind == 'mul':
        return list(a.args)
    if a.kind in ('op', 'ld'):
        r = []
        for x in a.args:
            if isinstance(x, Term):
                r += [y for y, _ in x.ts]
            elif hasattr(x, 'atoms'):
                r += list(x.atoms())
        return r
    return []

def rewrite(t, fn, memo=None):
    """rebuild a term; fn(atom) returns a replacement Term (of the atom's width) or None"""
    memo = {} if memo is None else memo
    if not t.ts:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    acc = T(t.w, t.c)
    for a, k in t.ts:
        x = _rwatom(a, fn, memo)
        if x.w < t.w:
            x = zext(x, t.w)
        elif x.w > t.w:
            x = trunc(x, t.w)
        acc = add(acc, mulc(x, k))
    memo[t] = acc
    return acc

def _rwatom(a, fn, memo):
    r = memo.get(a)
    if r is not None:
        return r
    r = fn(a)
    if r is None:
        if a.kind == 'bits':
            w = a.w
            r = T(w, 0)
            for f, k in a.args:
                m = T(w, k)
                for x, s in f:
                    v = _rwatom(x, fn, memo)
                    if s < 0 and v.w > w:
                        v = trunc(lshr(v, -s), w)
                    else:
                        if s < 0 and v.w <= w:
                            v = lshr(v, -s) if -s < v.w else T(v.w, 0)
                            v = zext(v, w) if v.w < w else v
                        else:
                            v = zext(v, w) if v.w < w else (trunc(v, w) if v.w > w else v)
                            v = shl(v, s)
                    m = and_(m, v)
                r = xor(r, m)
        elif a.kind == 'lin':
            r = rewrite(T(a.w, a.args[0], a.args[1]), fn, memo)
        elif a.kind == 'mul':
            r = mul(*[zext(x, a.w) if x.w < a.w else trunc(x, a.w) if x.w > a.w else x for x in (_rwatom(q, fn, memo) for q in a.args)])
        elif a.kind == 'op' and any(isinstance(x, Term) for x in a.args):
            na = tuple(rewrite(x, fn, memo) if isinstance(x, Term) else x for x in a.args)
            r = T(a.w, 0, ((a, 1),)) if na == a.args else opq(na[0], na[1:], a.w)
        elif a.kind == 'ld':
            idx = rewrite(a.args[1], fn, memo)
            r = T(a.w, 0, ((a, 1),)) if idx is a.args[1] else ld(a.args[0], idx)
        else:
            r = T(a.w, 0, ((a, 1),))
    memo[a] = r
    return r

def ld(seq, idx):
    """byte idx (a 64-bit Term) of the symbolic byte sequence seq"""
    return T(8, 0, ((atom('ld', (seq, idx), 8, getattr(seq, 'lo', 0), getattr(seq, 'hi', 255), getattr(seq, 'secret', False), getattr(seq, 'exact', True) and idx.exact), 1),))

def leafval(a, seed):
    h = zlib.crc32(repr((a.kind, a.w, a.id, seed)).encode())
    h = h * 0x9E3779B97F4A7C15 + zlib.crc32(repr((seed, a.id)).encode()) * 0xC2B2AE3D27D4EB4F
    v = (h ^ (h >> 29)) & MASKS[a.w]
    if not (a.lo <= v <= a.hi):
        v = a.lo + v % (a.hi - a.lo + 1)
    return v

def valuate(t, seed, memo):
    """value of a normal form under a pseudo-random valuation of its leaves"""
    import sys
    sys.setrecursionlimit(100000)
    v = t.c
    for a, k in t.ts:
        v += k * _va(a, seed, memo)
    return v & MASKS[t.w]

def _va(a, seed, memo):
    r = memo.get(a)
    if r is not None:
        return r
    if a.kind == 'bits':
        r = 0
        for f, k in a.args:
            for x, s in f:
                v = _va(x, seed, memo)
                k &= (v << s) if s >= 0 else (v >> -s)
                if not k:
                    break
            r ^= k
    elif a.kind == 'lin':
        r = a.args[0]
        for x, k in a.args[1]:
            r += k * _va(x, seed, memo)
        r &= MASKS[a.w]
    elif a.kind == 'mul':
        r = _va(a.args[0], seed, memo) * _va(a.args[1], seed, memo) & MASKS[a.w]
    else:
        r = leafval(a, seed)
    memo[a] = r
    return r

def leafexact(x, free):
    """does the atom itself, leaving aside what it is built from, stand for something known?"""
    return x.exact or x in free or bool(sub_atoms(x)) and x.kind in ('bits', 'lin', 'mul')

def differ(a, b, tries=24, defs=(), free=()):
    """True when two normal forms take different values under some valuation (a refutation of
    equality), False when they are the same form, None when neither is established; defs gives the meaning of atoms that abbreviate other terms, in order;
    free: atoms that may have any value although they are not inputs"""
    if a is b:
        return False
    al = atoms_of(a) | atoms_of(b)
    for x, t in defs:
        al |= atoms_of(t)
    if any(x.kind in ('op',) for x in al):
        return None
    if not all(leafexact(x, free) for x in al):
        # about a value that is not known: only a fixed distance tells them apart
        d = sub(a, b)
        return True if not d.ts and d.c and not defs else None
    for s in range(tries):
        m = {}
        for x, t in defs:
            m[x] = valuate(t, s, m)
        if valuate(a, s, m) != valuate(b, s, m):
            return True
    return None

# ---- text
def show_atom(a, d=0):
    if a.kind == 'sym':
        return str(a.args[0])
    if d > 3:
        return '..'
    if a.kind == 'ld':
        return '%r[%s]' % (a.args[0], show(a.args[1], d + 1))
    if a.kind == 'bits':
        s = []
        for f, k in a.args[:4]:
            s.append('&'.join(['%x' % k] + [show_atom(x, d + 1) + ('<<%d' % y if y > 0 else '>>%d' % -y if y < 0 else '') for x, y in f]))
        return '(' + '^'.join(s) + ('^..' if len(a.args) > 4 else '') + ')'
    if a.kind == 'lin':
        return '(' + show(T(a.w, a.args[0], a.args[1]), d + 1) + ')'
    if a.kind == 'op':
        return '%s(%s)' % (a.args[0], ','.join(show(x, d + 1) if isinstance(x, Term) else str(x) for x in a.args[1:]))
    if a.kind == 'mul':
        return '%s*%s' % tuple(show_atom(x, d + 1) for x in a.args)
    return '%s%r' % (a.kind, a.args)

def show(t, d=0):
    s = ''
    for a, k in t.ts[:6]:
        k = sgn(k, t.w)
        s += ('+' if k > 0 and s else '-' if k < 0 else '') + ('' if abs(k) == 1 else '%d*' % abs(k)) + show_atom(a, d)
    if len(t.ts) > 6:
        s += '+..'
    c = sgn(t.c, t.w)
    if c or not s:
        s += ('+' if s and c >= 0 else '') + (str(c) if abs(c) < 100000 else hex(t.c))
    return s
