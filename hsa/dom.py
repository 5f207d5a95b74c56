"""Relational numeric domain: conjunctions of linear inequalities over integer
atoms (convex polyhedra in constraint form), with integer tightening.  A
constraint e means e >= 0, where e = (c, ((atom, coef), ...))."""
from math import gcd
from . import terms as tm

ZERO = (0, ())
def ec(n):
    return (n, ())
def ea(a, k=1):
    return (0, ((a, k),))
def emk(c, d):
    return (c, tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)))
def eadd(x, y, k=1):
    if not y[1]:
        return (x[0] + k * y[0], x[1])
    d = dict(x[1])
    for a, j in y[1]:
        d[a] = d.get(a, 0) + k * j
    return emk(x[0] + k * y[0], d)
def esub(x, y):
    return eadd(x, y, -1)
def eaddc(x, n):
    return (x[0] + n, x[1])
def emul(x, n):
    return (x[0] * n, tuple((a, k * n) for a, k in x[1])) if n else ZERO
def eneg(x):
    return emul(x, -1)
def econst(e):
    return not e[1]
def esubst(e, m):
    """substitute atoms by expressions"""
    r = (e[0], ())
    for a, k in e[1]:
        r = eadd(r, m[a] if a in m else ea(a), k)
    return r
def eshow(e):
    s = ''
    for a, k in e[1]:
        s += ('+' if k > 0 and s else '') + ('-' if k == -1 else '' if k == 1 else '%d*' % k) + tm.show_atom(a)
    if e[0] or not s:
        s += ('+' if s and e[0] >= 0 else '') + str(e[0])
    return s
def eexact(e):
    return all(a.exact for a, _ in e[1])

def tighten(e):
    """divide by the gcd, rounding the constant down; None when trivially true, False when unsatisfiable"""
    c, ts = e
    if not ts:
        return None if c >= 0 else False
    g = 0
    for _, k in ts:
        g = gcd(g, k)
    if g > 1:
        e = (c // g, tuple((a, k // g) for a, k in ts))
    return e

def ebounds(e):
    lo = hi = e[0]
    for a, k in e[1]:
        if k > 0:
            lo += k * a.lo; hi += k * a.hi
        else:
            lo += k * a.hi; hi += k * a.lo
    return lo, hi

# ---- linear meaning of derived atoms
_lift = {}
def quo(xe, xa, s):
    """atom for floor(x / 2^s)"""
    lo, hi = ebounds(xe)
    return tm.atom('quo', (xa, s), 64, max(0, lo) >> s, max(0, hi) >> s, xa.secret, xa.exact)

def lift(a):
    """(expr, facts): expr is a linear expression equal to atom a, or None"""
    r = _lift.get(a)
    if r is not None:
        return r
    r = (None, ())
    if a.kind == 'bits' and all(len(f) <= 1 for f, _ in a.args):
        used, e, facts, ok = 0, ZERO, [], True
        for f, mk in a.args:
            if used & mk:
                ok = False
                break
            used |= mk
            if not f:
                e = eaddc(e, mk)
                continue
            x, s = f[0]
            low = (mk & -mk).bit_length() - 1
            n = mk.bit_length() - low
            if mk != ((1 << n) - 1) << low or low - s < 0:
                ok = False
                break
            xe = linexpr(x)
            aa = low - s
            q1, f1 = quoexpr(xe, x, aa)
            lo, hi = ebounds(xe)
            if hi >> (aa + n):
                q2, f2 = quoexpr(xe, x, aa + n)
                v = esub(q1, emul(q2, 1 << n))
                facts += f1 + f2 + [v, esub(ec((1 << n) - 1), v)]
            else:
                v = q1
                facts += f1
            e = eadd(e, emul(v, 1 << low))
        if ok:
            r = (e, tuple(facts))
    elif a.kind == 'lin':
        nw = tm._nowrap_args(a)
        e = (tm.sgn(a.args[0], a.w), tuple((x, tm.sgn(k, a.w)) for x, k in a.args[1]))
        if nw:
            r = (e, ())
        else:
            lo, hi = ebounds(e)
            m = 1 << a.w
            # a = e - m * wr
            wr = tm.atom('wrap', (a,), 64, 0, 2 * m, a.secret, a.exact)   # placeholder bounds, refined below
            wr.lo, wr.hi = lo // m, hi // m
            e2 = eadd(e, ea(wr), -m)
            r = (e2, (e2, esub(ec(m - 1), e2)))
    elif a.kind == 'op' and a.args[0] in ('udiv', 'urem') and isinstance(a.args[2], tm.Term) and a.args[2].const and a.args[2].c:
        n = a.args[2].c
        x = a.args[1]
        nw = tm.nowrap(x)
        if nw is not None:
            xe = (nw[0], tuple(sorted(nw[1], key=lambda y: y[0].id)))
            lo, hi = ebounds(xe)
            q = tm.atom('quod', (x, n), 64, lo // n, hi // n, x.secret, x.exact)
            rem = esub(xe, emul(ea(q), n))
            facts = (rem, esub(ec(n - 1), rem))
            r = (ea(q), facts) if a.args[0] == 'udiv' else (rem, facts)
    _lift[a] = r
    return r

def linexpr(a):
    if a.kind == 'lin' and tm._nowrap_args(a):
        return emk(tm.sgn(a.args[0], a.w), {x: tm.sgn(k, a.w) for x, k in a.args[1]})
    return ea(a)

def quoexpr(xe, xa, s):
    if s == 0:
        return xe, []
    q = quo(xe, xa, s)
    e = esub(xe, emul(ea(q), 1 << s))
    return ea(q), [e, esub(ec((1 << s) - 1), e)]

def lifted(e):
    """rewrite an expression over base atoms; returns (expr, facts)"""
    facts = []
    for _ in range(6):
        ch = False
        for a, k in e[1]:
            l, f = lift(a)
            if l is not None:
                e = eadd((e[0], tuple(x for x in e[1] if x[0] is not a)), l, k)
                facts += f
                ch = True
                break
        if not ch:
            break
    return e, facts

FMLIMIT = 400

def infeasible(cs):
    """True when the conjunction of the constraints has no integer solution as far as
    Fourier-Motzkin elimination with integer tightening can tell"""
    # close under the meaning of the atoms
    todo, work, seen = list(cs), [], set()
    while todo:
        e = todo.pop()
        e, f = lifted(e)
        todo += [x for x in f if x not in seen]
        seen.update(f)
        e = tighten(e)
        if e is False:
            return True
        if e is not None:
            work.append(e)
    # bounds by interval propagation
    lo, hi = {}, {}
    for e in work:
        for a, _ in e[1]:
            if a not in lo:
                lo[a], hi[a] = a.lo, a.hi
    # atoms whose definition gives facts were handled; atoms without constraints keep intrinsic bounds
    for _ in range(8):
        ch = False
        for c, ts in work:
            mx = c
            for a, k in ts:
                mx += k * (hi[a] if k > 0 else lo[a])
            if mx < 0:
                return True
            for a, k in ts:
                rest = mx - k * (hi[a] if k > 0 else lo[a])
                # k*a >= -rest
                if k > 0:
                    b = -(rest // k)
                    if b > lo[a]:
                        lo[a] = b; ch = True
                else:
                    b = rest // -k
                    if b < hi[a]:
                        hi[a] = b; ch = True
                if lo[a] > hi[a]:
                    return True
        if not ch:
            break
    # substitute fixed atoms
    fixed = {a: ec(lo[a]) for a in lo if lo[a] == hi[a]}
    rows = set()
    for e in work:
        if fixed:
            e = esubst(e, fixed)
        e = tighten(e)
        if e is False:
            return True
        if e is None:
            continue
        mn = e[0]
        for a, k in e[1]:
            mn += k * (lo[a] if k > 0 else hi[a])
        if mn >= 0:
            continue            # implied by the bounds
        rows.add(e)
    if not rows:
        return False
    live = {a for e in rows for a, _ in e[1]}
    for a in live:
        rows.add((-lo[a], ((a, 1),)))
        rows.add((hi[a], ((a, -1),)))
    rows = _prune(rows)
    while live:
        best = None
        for a in live:
            p = n = 0
            for e in rows:
                for x, k in e[1]:
                    if x is a:
                        if k > 0:
                            p += 1
                        else:
                            n += 1
            s = p * n - p - n
            if best is None or s < best[0]:
                best = (s, a)
        a = best[1]
        pos, ng, rest = [], [], set()
        for e in rows:
            k = dict(e[1]).get(a, 0)
            if k > 0:
                pos.append((k, e))
            elif k < 0:
                ng.append((-k, e))
            else:
                rest.add(e)
        if len(pos) * len(ng) + len(rest) > FMLIMIT * 4:
            return False
        for k, e in pos:
            for j, f in ng:
                g = gcd(k, j)
                x = eadd(emul(e, j // g), f, k // g)
                x = tighten(x)
                if x is False:
                    return True
                if x is not None:
                    rest.add(x)
        rows = _prune(rest)
        live.discard(a)
        live &= {x for e in rows for x, _ in e[1]}
        if len(rows) > FMLIMIT:
            return False
    return False

def _prune(rows):
    best = {}
    for c, ts in rows:
        if ts not in best or c < best[ts]:
            best[ts] = c
    return {(c, ts) for ts, c in best.items()}

class Cons:
    __slots__ = ('rows', '_ent', '_atoms')
    def __init__(self, rows=frozenset()):
        self.rows = rows
        self._ent = {}
        self._atoms = None
    def relevant(self, e):
        """the constraints connected to the atoms of e"""
        if not self.rows:
            return ()
        at = set()
        self._close(e, at)
        out, rest, ch = [], [(r, self._ratoms(r)) for r in self.rows], True
        while ch:
            ch = False
            nr = []
            for r, ra in rest:
                if ra & at:
                    out.append(r); at |= ra; ch = True
                else:
                    nr.append((r, ra))
            rest = nr
        return out
    def _ratoms(self, r):
        if self._atoms is None:
            self._atoms = {}
        s = self._atoms.get(r)
        if s is None:
            s = set()
            self._close(r, s)
            self._atoms[r] = s
        return s
    def _close(self, e, acc):
        st = [a for a, _ in e[1]]
        while st:
            a = st.pop()
            if a in acc:
                continue
            acc.add(a)
            l, f = lift(a)
            if l is not None:
                st += [x for x, _ in l[1]]
                for g in f:
                    st += [x for x, _ in g[1]]
    def entails(self, e):
        """e >= 0 in every solution"""
        if not e[1]:
            return e[0] >= 0
        lo, hi = ebounds(e)
        if lo >= 0:
            return True
        r = self._ent.get(e)
        if r is None:
            ne = (-e[0] - 1, tuple((a, -k) for a, k in e[1]))
            r = infeasible(list(self.relevant(e)) + [ne])
            self._ent[e] = r
        return r
    def entails_eq(self, e):
        if not e[1]:
            return e[0] == 0
        return self.entails(e) and self.entails(eneg(e))
    def refutes(self, e):
        """e >= 0 in no solution"""
        return self.entails(eaddc(eneg(e), -1))
    def add(self, e):
        """conjunction with e >= 0; None when it becomes infeasible"""
        e2 = tighten(e)
        if e2 is None:
            return self
        if e2 is False:
            return None
        if e2 in self.rows:
            return self
        if ebounds(e2)[0] >= 0:
            return self
        if self.refutes(e2):
            return None
        if self.entails(e2):
            return self
        # drop the rows it implies syntactically
        rows = {r for r in self.rows if not (r[1] == e2[1] and r[0] >= e2[0])}
        rows.add(e2)
        return Cons(frozenset(rows))
    def addeq(self, e):
        c = self.add(e)
        return c.add(eneg(e)) if c is not None else None
    def join(self, o):
        """constraints of either side implied by both"""
        if self is o or self.rows == o.rows:
            return self
        rows = {r for r in self.rows if r in o.rows or o.entails(r)} | {r for r in o.rows if r in self.rows or self.entails(r)}
        return Cons(frozenset(rows))
    def bounds(self, e):
        """constant bounds found by bisection on the intrinsic bounds (small ranges only)"""
        lo, hi = ebounds(e)
        while lo < hi and hi - lo < 1 << 70:
            mid = (lo + hi) // 2
            if self.entails(esub(ec(mid), e)):
                hi = mid
            else:
                break
        return lo, hi
    def __repr__(self):
        return '{' + '; '.join(sorted(eshow(r) + '>=0' for r in self.rows)) + '}'

EMPTY = Cons()

# ---- concrete witnesses
class NoModel(Exception):
    pass

def evalatom(a, env):
    """the value of an atom when the leaves have the values in env (missing ones raise NoModel)"""
    v = env.get(a)
    if v is not None:
        return v
    k = a.kind
    if k == 'lin':
        v = (a.args[0] + sum(q * evalatom(x, env) for x, q in a.args[1])) & tm.MASKS[a.w]
    elif k == 'bits':
        v = 0
        for f, m in a.args:
            for x, s in f:
                y = evalatom(x, env)
                m &= (y << s) if s >= 0 else (y >> -s)
            v ^= m
    elif k == 'mul':
        v = evalterm(a.args[0], env) * evalterm(a.args[1], env) & tm.MASKS[a.w] if isinstance(a.args[0], tm.Term) else evalatom(a.args[0], env) * evalatom(a.args[1], env) & tm.MASKS[a.w]
    elif k == 'quo':
        v = evalatom(a.args[0], env) >> a.args[1] if isinstance(a.args[0], tm.Atom) else evalterm(a.args[0], env) >> a.args[1]
    elif k == 'quod':
        v = evalterm(a.args[0], env) // a.args[1]
    elif k == 'wrap':
        x = a.args[0]
        v = (tm.sgn(x.args[0], x.w) + sum(tm.sgn(q, x.w) * evalatom(y, env) for y, q in x.args[1])) >> x.w
    elif k == 'op':
        v = evalop(a, env) & tm.MASKS[a.w]
    elif k == 'ld' and hasattr(a.args[0], 'segs'):
        v = evalcat(a, env)
    else:
        raise NoModel()
    env[a] = v
    return v

def evalcmp(pred, x, y, w):
    if pred[0] == 's':
        x, y = tm.sgn(x, w), tm.sgn(y, w)
    p = pred[1:] if pred[0] in 'us' else pred
    return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]

def evalop(a, env):
    n, r = a.args[0], a.args[1:]
    if len(r) == 1 and isinstance(r[0], tuple):
        r = r[0]
    if n == 'sel':
        p, x, y, t, f = r
        if not isinstance(x, tm.Term) or not isinstance(y, tm.Term):
            raise NoModel()
        return evalterm(t if evalcmp(p, evalterm(x, env), evalterm(y, env), x.w) else f, env)
    def v(x):
        if isinstance(x, tm.Term):
            return evalterm(x, env)
        if isinstance(x, tm.Atom):
            return evalatom(x, env)
        return x
    x = v(r[0])
    w = r[0].w if hasattr(r[0], 'w') else a.w
    if n == 'sext':
        return tm.sgn(x, w)
    y = v(r[1])
    if n == 'ashr':
        return tm.sgn(x, w) >> min(y, w - 1)
    if n in ('udiv', 'urem', 'sdiv', 'srem') and y == 0:
        raise NoModel()
    if n in ('sdiv', 'srem'):
        x, y = tm.sgn(x, w), tm.sgn(y, w)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return q if n == 'sdiv' else x - q * y
    f = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'mul': lambda: x * y, 'mulx': lambda: x * y, 'udiv': lambda: x // y, 'urem': lambda: x % y,
         'shl': lambda: x << y if y < w else 0, 'lshr': lambda: x >> y if y < w else 0}.get(n)
    if f is None:
        raise NoModel()
    return f()

def evalcat(a, env):
    # a byte of a concatenation: the segment its position falls in
    pos = evalterm(a.args[1], env)
    for lo, hi, k in a.args[0].segs:
        l, h = evalexpr(lo, env), evalexpr(hi, env)
        if l <= pos < h:
            if k[0] == 'v' and isinstance(k[1], tm.Term):
                return evalterm(tm.byte(k[1], pos - l), env)
            if k[0] == 'it':
                from . import mem
                b = mem.it_at(k, ec(pos))
                if b is not None:
                    return evalterm(b, env)
    raise NoModel()

def evalterm(t, env):
    return (t.c + sum(k * evalatom(a, env) for a, k in t.ts)) & tm.MASKS[t.w]

def evalexpr(e, env):
    return e[0] + sum(k * evalatom(a, env) for a, k in e[1])

def _leaves(a, acc, seen):
    if a in seen:
        return
    seen.add(a)
    k = a.kind
    if k in ('lin',):
        for x, _ in a.args[1]:
            _leaves(x, acc, seen)
    elif k == 'bits':
        for f, _ in a.args:
            for x, _s in f:
                _leaves(x, acc, seen)
    elif k in ('mul', 'quo', 'quod', 'wrap'):
        for x in a.args:
            if isinstance(x, tm.Atom):
                _leaves(x, acc, seen)
            elif isinstance(x, tm.Term):
                for y, _ in x.ts:
                    _leaves(y, acc, seen)
    elif k == 'op' and a.exact and a.args[0] in ('udiv', 'urem') and isinstance(a.args[1], tm.Term) and isinstance(a.args[2], tm.Term) and a.args[2].const and a.args[2].c:
        for y, _ in a.args[1].ts:
            _leaves(y, acc, seen)
    elif k == 'sym' and a.exact:
        acc.add(a)
    else:
        raise NoModel()

def model(cons, e, tries=300):
    """values of the leaves that satisfy the constraints and make e different from zero, or None"""
    import random
    rnd = random.Random(7)
    acc, seen = set(), set()
    try:
        rows = list(cons.rows)
        for x in rows + [e]:
            for a, _ in x[1]:
                _leaves(a, acc, seen)
    except NoModel:
        return None
    leaves = sorted(acc, key=lambda a: a.id)
    for t in range(tries):
        env0 = {}
        for a in leaves:
            lo, hi = a.lo, a.hi
            c = rnd.randrange(5)
            if c == 0:
                v = lo + rnd.randrange(0, 200)
            elif c == 1:
                v = hi - rnd.randrange(0, 200)
            elif c == 2:
                v = rnd.randint(lo, hi)
            else:
                b = max(1, hi.bit_length())
                v = (1 << rnd.randrange(b)) * rnd.randrange(1, 4) + rnd.randrange(-3, 200)
            env0[a] = max(lo, min(hi, v))
        for _ in range(12):
            env = dict(env0)
            bad = [r for r in rows if evalexpr(r, env) < 0]
            if not bad:
                break
            r = bad[rnd.randrange(len(bad))]
            own = [(a, k) for a, k in r[1] if a in acc]
            if not own:
                break
            a, k = own[rnd.randrange(len(own))]
            v = evalexpr(r, env)
            d = -(-(-v) // abs(k)) if rnd.randrange(3) else -(-(-v) // abs(k)) + rnd.randrange(0, 300)
            env0[a] = max(a.lo, min(a.hi, env0[a] + (d if k > 0 else -d)))
        else:
            continue
        env = dict(env0)
        if any(evalexpr(r, env) < 0 for r in rows):
            continue
        if all(a.lo <= evalatom(a, env) <= a.hi for a in list(env)) and evalexpr(e, env) != 0:
            return env0
    return None
