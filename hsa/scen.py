"""Entry states: the library functions, their arguments and a valid context, and the
contract of the internal block transform used when its callers are analysed."""
import itertools, os
from . import build, ir, interp, libc, spec, terms as tm, dom
from .interp import Interp, State, Hooks, Split
from .mem import *
from .dom import *
from .runner import AnchorError

# ---- the same scenario for particular sizes
FIX = {}          # name -> value; empty: sizes are symbols
SEEN = {}         # the size symbols a task has used: name -> (lo, hi, block)
def quantity(name, w, lo=0, hi=None):
    """a size that may be anything from lo to hi, or the value picked for it"""
    hi = (1 << w) - 1 if hi is None else hi
    if name in FIX:
        return tm.const(min(max(FIX[name], lo), hi), w)
    SEEN[name] = (lo, hi)
    return tm.sym(name, w, lo, hi)

def compared(names):
    """the larger constants that the functions of these names compare something with"""
    out = set()
    for P in _progs.values():
        for n in names:
            f = P.funcs.get(n)
            for b in (f.blocks if f is not None else ()):
                for i in b.instrs:
                    if i.op == 'icmp':
                        out |= {x.v for x in i.ops if isinstance(x, ir.Const) and 128 < x.v < 1 << 40}
    return sorted(out)

def picks(names):
    """particular values for the size symbols a task has used: short ones around the block sizes, and those around
    the constants its functions compare with"""
    seen = dict(SEEN)
    B = 64 if 'block_offset' not in seen else seen['block_offset'][1] + 1
    sizes = [0, 1, B, B + 1, 2 * B + 1, B - 1, 3 * B + 7, 2, 2 * B, 2 * B - 1, 4 * B, 128, 129, 257]
    for k in compared(names)[:6]:
        sizes += [k + 1, 2 * k + 1, k, k - 1, 3 * k + 5]
    done = set()
    for n in sizes:
        for bo in (0, B - 1, 1, 17):
            for m in (n, 0, 129):
                x = {}
                for q in seen:
                    x[q] = bo if q == 'block_offset' else m if q == 'key_size' else n
                    x[q] = min(max(x[q], seen[q][0]), seen[q][1])
                k = tuple(sorted(x.items()))
                if k not in done:
                    done.add(k)
                    yield x

_progs = {}
def program(cfg, alg=None, kind='lib'):
    """the program of a configuration; for one algorithm only the modules it needs are read"""
    k = (cfg, alg, kind)
    if k in _progs:
        return _progs[k]
    paths = build.compile_all(cfg, kind)
    if alg is None:
        p = ir.Program(paths)
    else:
        sel = [x for x in paths if ('_%s.' % alg) in x or ('_%s_' % alg) in x]
        rest = [x for x in paths if x not in sel]
        if not sel:
            raise AnchorError('no source of %s' % alg)
        p = ir.Program(sel)
        if any(f.decl and n.startswith('libhmac_') and n not in p.funcs for m in p.modules for n, f in m.funcs.items()):
            p = ir.Program(sel + rest)
    _progs[k] = p
    return p

ALGS = ['md5', 'sha1', 'sha224', 'sha256', 'sha512']

def func(prog, name):
    f = prog.funcs.get(name)
    if f is None:
        raise AnchorError('function %s is not defined' % name)
    return f

class Lib:
    """one algorithm in one configuration"""
    def __init__(self, cfg, alg):
        self.cfg, self.alg = cfg, alg
        self.A = spec.ALGS[alg]
        self.P = program(cfg, alg)
        self.ps = self.P.ptrsize
        self.pw = self.ps * 8
        lay = self.P.layout('libhmac_internal_%s_context' % alg)
        if lay is None:
            raise AnchorError('structure libhmac_internal_%s_context not found' % alg)
        self.csize, self.fields = lay
        self.builtin = 'hash_values' in self.fields
    def name(self, what):
        return 'libhmac_%s_%s' % (self.alg, what)
    def f(self, what):
        return func(self.P, self.name(what))
    def field(self, n):
        if n not in self.fields:
            raise AnchorError('context of %s has no field %s' % (self.alg, n))
        return self.fields[n]
    def interp(self, contracts=None, hooks=None):
        c = dict(libc.BASE)
        c.update(contracts or {})
        I = Interp(self.P, c, hooks)
        I.lib = self
        if FIX:
            I.general = False
        return I
    def null(self):
        return tm.const(0, self.pw)

    # ---- objects
    def error_arg(self, I, st, maybe=False):
        p = I.new(st, 'arg', 'error', self.ps, content=Cells({0: (self.ps, self.null())}, UNDEF))
        if maybe:
            st.nul[p.oid] = 'maybe'
        return p

    def word(self, n, secret=True):
        return tm.sym(n, self.A.word * 8, secret=secret)

    def context(self, I, st, bo=None, hc=None, stream=None, H=None, secret=True, plain=False):
        """a valid built-in context that has absorbed hc bytes of STREAM and retains bo more"""
        A = self.A
        bo = bo if bo is not None else quantity('block_offset', self.pw, 0, A.block - 1)
        hc = hc if hc is not None else tm.sym('hash_count', 64, 0, (1 << 61) - (1 << 60))
        stream = stream if stream is not None else Seq('STREAM', secret=secret)
        H = H or [self.word('H%d' % i, secret) for i in range(A.nwords)]
        o, n, _ = self.field('hash_values')
        segs = []
        ob, nb, _ = self.field('block')
        cells = {}
        for i, h in enumerate(H):
            cells[o + A.word * i] = (A.word, h)
        oo, no, _ = self.field('block_offset')
        cells[oo] = (no, bo)
        oc, nc, _ = self.field('hash_count')
        cells[oc] = (nc, hc)
        if plain:
            return I.new(st, 'ctx', 'context', self.csize, content=Cells(cells, TOPS)), bo, hc, H, stream
        base = to_segs(Cells(cells, TOPS), ec(self.csize))
        st.cons = st.cons or EMPTY
        b = term_e(EMPTY, bo)
        h = term_e(EMPTY, hc)
        # block[i] = STREAM[hc + i]
        kind = src(stream, esub(h, ec(ob)))
        l, r = cut(st.cons, base.s, ec(ob), self.P.bigendian)
        _, r = cut(st.cons, r, ec(ob + nb), self.P.bigendian)
        # the rest of the block: bytes of earlier messages, none of which is part of this one
        stale = src(Seq('STALE', secret=secret), ec(-ob))
        m = l + ((ec(ob), eaddc(b, ob), kind), (eaddc(b, ob), ec(ob + A.block), stale), (ec(ob + A.block), ec(ob + nb), TOPS)) + r
        p = I.new(st, 'ctx', 'context', self.csize, content=Segs(norm(st.cons, m)))
        I.recell(st, p.oid)
        p2 = p
        st.mon['$stream'] = stream
        return p2, bo, hc, H, stream

    def opaque_context(self, I, st):
        """a valid context of any backend"""
        p = I.new(st, 'ctx', 'context', self.csize, content=Cells({}, TOPS))
        return p

    def input(self, I, st, size, name='buffer', seq=None, secret=True, maybe=False):
        e = term_e(EMPTY, size) if isinstance(size, tm.Term) else ec(size)
        seq = seq or Seq(name.upper(), secret=secret)
        p = I.new(st, 'arg', name, e, content=Cells({}, src(seq)), writable=False)
        if maybe:
            st.nul[p.oid] = 'maybe'
        return p

    def size(self, name, hi=None):
        return quantity(name, self.pw, 0, hi)

    def ssize_max(self):
        return (1 << (self.pw - 1)) - 1

def ctx_terms(I, lib, st, p, field, n=None):
    """the words of a context field"""
    o, size, _ = lib.field(field)
    n = n or size
    m = st.mem[p.oid]
    out = []
    for i in range(0, size, n):
        if isinstance(m, Cells):
            v, prob = read_cells(m, o + i, n, lib.P.bigendian)
        else:
            v, prob = read_segs(st.cons, m, ec(o + i), n, lib.P.bigendian)
        out.append(v)
    return out

def ret_is(v, n):
    """the return value is the given number: True, False or None"""
    if not isinstance(v, tm.Term):
        return None
    if not v.ts:
        return tm.sgn(v.c, v.w) == n
    return False if is_undef(v) else None

def is_undef(v):
    """no value at all: the function ended without a return statement, or returned a variable that was never set"""
    return isinstance(v, tm.Term) and len(v.ts) == 1 and repr(v.ts[0][0]).startswith('undef#')

def feasible(st):
    return not dom.infeasible(list(st.cons.rows))

def is_null(I, p):
    return isinstance(p, tm.Term) and not p.ts and p.c == 0

def need_nn(I, st, p):
    """True when the pointer is null; splits an undecided one"""
    if isinstance(p, Ptr):
        n = I.isnull(st, p)
        if n is None:
            raise Split(I.split_null(st, p.oid))
        return n
    return is_null(I, p)

def set_error(I, st, c, err):
    """what a library function does when it reports failure"""
    libc.error_set(I, st, interp.Call('libcerror_error_set', [err], c.ins, None))

def minus1(w=32):
    return tm.const(-1, w)

def multiple(st, e, B):
    """(expression of the largest multiple of B up to e, state); e >= 0"""
    if econst(e):
        return ec(e[0] - e[0] % B)
    if len(e[1]) == 1 and e[1][0][1] == 1 and e[0] == 0:
        a = e[1][0][0]
    else:
        a = tm.linatom(toterm(e, 64))
    if st.cons.entails(esub(ec(B - 1), e)):
        return ZERO
    q = dom.quo(e, a, B.bit_length() - 1)
    m = emul(ea(q), B)
    for x in (esub(e, m), eaddc(esub(m, e), B - 1)):
        c = st.cons.add(x)
        if c is not None:
            st.cons = c
    return m

_calls = itertools.count()
def transform_contract(L, absorb=None, fail=True):
    """contract of the internal block transform, as established by C02: consumes the whole
    blocks of the buffer, replaces the chaining words, returns the number of bytes; or fails"""
    B = L.A.block
    o, size, _ = L.field('hash_values')
    def h(I, st, c):
        ctx, buf, n, err = c.args[:4]
        w = c.fn.retty.bits if c.fn is not None else L.pw
        for p in (ctx, buf):
            if need_nn(I, st, p):
                libc.fail(st, 'block transform given a null pointer', c.ins)
                set_error(I, st, c, err)
                return [(st, minus1(w))]
        e = libc.size_e(I, st, n)
        lim = ec(L.ssize_max())
        if not st.cons.entails(esub(lim, e)):
            if not st.cons.refutes(esub(lim, e)):
                raise Split(I.alts(st, esub(lim, e)))
            libc.fail(st, 'block transform given a size above the maximum', c.ins)
            set_error(I, st, c, err)
            return [(st, minus1(w))]
        out = []
        if fail:
            s2 = st.fork()
            libc.fail(s2, 'block transform', c.ins)
            set_error(I, s2, c, err)
            out.append((s2, minus1(w)))
        m = multiple(st, e, B)
        bo = I.check_ptr(st, buf, c.ins, 'read')
        co = I.check_ptr(st, ctx, c.ins, 'write')
        if bo is not None and co is not None:
            I.hooks.range_read(I, st, buf, m, c.ins)
            if I.in_bounds(st, bo, buf.off, m, c.ins, 'read'):
                if absorb:
                    absorb(I, st, ctx, buf, m, c)
            k = st.mon.get('nabs', 0)
            if isinstance(k, int):
                k = st.mon['nabs'] = k + 1
            else:                               # in some iteration of a loop
                k = '#%d' % next(_calls)
            H = tuple(L.word('H%d(%s)' % (i, k)) for i in range(L.A.nwords))
            st.mon['H'] = H
            for i, t in enumerate(H):
                I.store(st, Ptr(ctx.oid, eaddc(ctx.off, o + L.A.word * i)), L.A.word, t, c.ins)
        st.event('absorb', c.ins)
        out.append((st, toterm(m, w)))
        return out
    return {L.name('context_transform'): h}

def content(I, st, p, lo, hi):
    """normalised segments of [lo, hi) of an object; may raise NeedSplit"""
    m = to_segs(st.mem[p.oid], I.objs[p.oid].size)
    return norm(st.cons, extract(st.cons, m, lo, hi, I.big))

def is_zero(st, d):
    """d = 0 under the constraints: True, False (a concrete input shows it differs) or None"""
    if st.cons.entails_eq(d):
        return True
    if st.cons.refutes(d) or st.cons.refutes(dom.eneg(d)) or not d[1]:
        return False
    if not st.loose and dom.eexact(d) and dom.model(st.cons, d) is not None:
        return False
    return None

def is_source(st, segs, seq, delta):
    """every byte at position x of the segments is seq[x + delta]: True, False or None"""
    for lo, hi, k in segs:
        if k[0] == 'it' and k[2] == 1 and k == src(seq, delta):
            continue
        if k[0] == 'it' and k[2] == 1:
            w = src(seq, delta)[3][0]
            g = k[3][0]
            # equal under the constraints?
            ga = g.ts[0][0] if len(g.ts) == 1 and g.ts[0][0].kind == 'ld' else None
            wa = w.ts[0][0]
            if ga is not None and ga.args[0] is seq:
                d = esub(idx_e(st, ga.args[1]), idx_e(st, wa.args[1]))
                if st.cons.entails_eq(d):
                    continue
                if st.cons.entails(eaddc(esub(hi, lo), -1)) and (st.cons.refutes(d) or st.cons.refutes(dom.eneg(d))):
                    return False
                if st.cons.entails(eaddc(esub(hi, lo), -1)) and not d[1]:
                    return False
                # a concrete input for which another byte of the stream is used
                c = st.cons.add(eaddc(esub(hi, lo), -1))
                if c is not None and not st.loose and dom.eexact(d) and dom.model(c, d):
                    return False
                return None
            if st.cons.entails(eaddc(esub(hi, lo), -1)):
                return False
            return None
        if k[0] == 'v' and isinstance(k[1], tm.Term):
            for i in range(k[2]):
                b = vbyte(k[1], k[2], i, False)
                w = tm.ld(seq, toterm(eadd(eaddc(lo, i), delta)))
                if b is not w:
                    if tm.differ(b, w):
                        return False
                    return None
            continue
        if k[0] in ('top', 'undef'):
            return None if k[0] == 'top' else False
        return None
    return True

def idx_e(st, t):
    e = term_e(st.cons, t)
    if e is not None:
        return e
    return ea(tm.linatom(t))

def report_trouble(R, I, kinds=('oob', 'null', 'wild', 'diverge', 'recursion', 'uninit', 'uaf'), rule='analysis'):
    """findings that belong to other properties leave this one open"""
    for F in I.findings:
        if F.kind in kinds:
            R.und(rule, repr(F))

def same(g, w):
    if g is w:
        return True
    if not isinstance(g, tm.Term) or g.w != w.w:
        return None
    if not g.secret and not w.secret:
        # equal as integers, by the linear meaning of both
        a, b = [term_e(EMPTY, x) or ea(tm.linatom(x)) for x in (g, w)]
        if EMPTY.entails_eq(esub(a, b)):
            return True
    return False if tm.differ(g, w) else None

def bytes_of(I, s, segs, lo, n):
    out = []
    for i in range(n):
        b, _ = read_byte(s.cons, Segs(segs), eaddc(lo, i), 1, I.big)
        out.append(resolve(s.cons, b) if isinstance(b, tm.Term) else None)
    return tuple(out)

def show_t(t):
    x = repr(t)
    return x if len(x) < 60 else x[:57] + '...'

def settled(I, s, fn, limit=64):
    """evaluate fn(state), which returns (verdict, ...), partitioning the state where the
    answer depends on undecided facts; returns the worst result and its state"""
    todo, n, worst, ws = [s], 0, None, s
    first = True
    while todo:
        x = todo.pop()
        n += 1
        if n > limit:
            return (None, 'too many partitions'), s
        try:
            r = fn(x)
        except NeedSplit as e:
            todo += I.alts(x, e.e)
            continue
        except Split as e:
            todo += e.states
            continue
        if first or (r[0] is False and worst[0] is not False) or (r[0] is None and worst[0] is True):
            worst, ws, first = r, x, False
    if worst is None:
        return (True, ''), s
    return worst, ws
