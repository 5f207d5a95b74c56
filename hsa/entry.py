"""The public entry points with generic arguments, and the boundary contract of the context
functions used when their callers are analysed: a context is an abstract object that has
absorbed a byte sequence; finalising yields the symbolic digest of that sequence."""
from .scen import *
from . import libc, spec

# ---- digest symbols
_dig = {}
class Digest(Seq):
    """the digest of a byte sequence, as an opaque sequence of bytes"""
    def __init__(self, alg, of):
        Seq.__init__(self, '%s(%r)' % (alg, of))
        self.alg, self.of = alg, of
def digest_seq(alg, segs):
    k = (alg, catseq(segs))
    r = _dig.get(k)
    if r is None:
        r = _dig[k] = Digest(*k)
    return r

class Abs:
    """what a context has absorbed: interned, so usable as a monitor value"""
    _m = {}
    def __new__(cls, alg, status, total, segs):
        k = (alg, status, total, segs)
        r = cls._m.get(k)
        if r is None:
            r = object.__new__(cls)
            r.alg, r.status, r.total, r.segs = k
            cls._m[k] = r
        return r
    def __repr__(self):
        return '<%s %s>' % (self.alg, self.status)
    def widen(self):
        """any context of the same algorithm and status"""
        t = tm.fresh('absorbed', 64, exact=False)
        e = ea(t.ts[0][0])
        return Abs(self.alg, self.status, e, ((ZERO, e, TOPS),))

def refptr(I, st, p, ins):
    """the context a reference refers to"""
    if I.check_ptr(st, p, ins, 'read') is None:
        return None
    return I.load(st, p, I.prog.ptrsize, ins)

def context_contracts(L, faults=True, algs=None, csize=None):
    """contracts of libhmac_<alg>_context_{initialize,free,update,finalize}"""
    out = {}
    for a in algs or ALGS:
        out.update(_contracts(L, a, faults))
    return out

def _contracts(L, alg, faults):
    A = spec.ALGS[alg]
    def failing(I, st, c, what, err):
        libc.fail(st, what, c.ins)
        set_error(I, st, c, err)
        return (st, minus1())
    def refuse(I, st, c, what, err):
        # the arguments are wrong: not a fault of the callee
        return failing(I, st, c, 'refused: ' + what, err)
    def may_fail(I, st, c, what, err, out):
        if faults and libc.used(c):
            s2 = st.fork()
            out.append(failing(I, s2, c, what, err))
    def initialize(I, st, c):
        ref, err = c.args[:2]
        st.event('call', c.name, c.ins)
        if need_nn(I, st, ref):
            return [refuse(I, st, c, 'context reference missing', err)]
        v = refptr(I, st, ref, c.ins)
        if v is None:
            return [refuse(I, st, c, 'context reference', err)]
        if not is_null(I, v):
            if isinstance(v, Ptr) and not need_nn(I, st, v):
                I.find(st, 'ctx-order', c.ins, 'a context is created over one that is still set')
                return [refuse(I, st, c, 'context already set', err)]
        out = []
        may_fail(I, st, c, 'context creation', err, out)
        p = I.new(st, 'heap', 'ctx@%d' % c.ins.line, None, content=Cells({}, TOPS), site=c.ins)
        I.store(st, ref, I.prog.ptrsize, p, c.ins)
        st.mon['c:' + p.oid] = Abs(alg, 'open', ZERO, ())
        st.event('init', alg, p.oid, c.ins)
        out.append((st, tm.const(1, 32)))
        return out
    def state(I, st, p, ins):
        a = st.mon.get('c:' + p.oid)
        if not isinstance(a, Abs):
            return None
        if a.alg != alg:
            I.find(st, 'ctx-alg', ins, 'a %s context is passed to a %s function' % (a.alg, alg))
        return a
    def free(I, st, c):
        ref, err = c.args[:2]
        st.event('call', c.name, c.ins)
        if need_nn(I, st, ref):
            return [refuse(I, st, c, 'context reference missing', err)]
        v = refptr(I, st, ref, c.ins)
        out = []
        if isinstance(v, Ptr) and not need_nn(I, st, v):
            state(I, st, v, c.ins)
            # the reference is cleared and the context gone whether or not the call succeeds
            m = st.mem.get(v.oid)
            if m is not None:
                st.mem[v.oid] = Cells({}, fill(tm.const(0, 8)))   # wiped (C10 of context_free)
            libc.release(I, st, v, c.ins)
            I.store(st, ref, I.prog.ptrsize, L.null(), c.ins)
            st.event('ctxfree', alg, v.oid, c.ins)
        may_fail(I, st, c, 'context release', err, out)
        out.append((st, tm.const(1, 32)))
        return out
    def update(I, st, c):
        ctx, buf, n, err = c.args[:4]
        st.event('call', c.name, c.ins)
        for p, w in ((ctx, 'context'), (buf, 'buffer')):
            if need_nn(I, st, p):
                return [refuse(I, st, c, w + ' missing', err)]
        e = libc.size_e(I, st, n)
        lim = ec(L.ssize_max())
        if not st.cons.entails(esub(lim, e)):
            if not st.cons.refutes(esub(lim, e)):
                raise Split(I.alts(st, esub(lim, e)))
            return [refuse(I, st, c, 'size above the maximum', err)]
        out = []
        may_fail(I, st, c, 'context update', err, out)
        bo = I.check_ptr(st, buf, c.ins, 'read')
        co = I.check_ptr(st, ctx, c.ins, 'write')
        if bo is None or co is None:
            return out
        I.hooks.range_read(I, st, buf, e, c.ins)
        if I.in_bounds(st, bo, buf.off, e, c.ins, 'read'):
            a = state(I, st, ctx, c.ins)
            if a is not None:
                if a.status != 'open':
                    I.find(st, 'ctx-order', c.ins, 'a context is updated after it was finalised')
                segs = content(I, st, buf, buf.off, eadd(buf.off, e))
                for lo, hi, k in segs:
                    if k[0] == 'undef' and st.cons.entails(eaddc(esub(hi, lo), -1)):
                        I.find(st, 'uninit', c.ins, 'uninitialised bytes of %s are hashed' % bo.name)
                segs = shift(segs, esub(a.total, buf.off))
                st.mon['c:' + ctx.oid] = Abs(a.alg, a.status, eadd(a.total, e), norm(st.cons, a.segs + segs))
        out.append((st, tm.const(1, 32)))
        return out
    def finalize(I, st, c):
        ctx, buf, n, err = c.args[:4]
        st.event('call', c.name, c.ins)
        for p, w in ((ctx, 'context'), (buf, 'digest buffer')):
            if need_nn(I, st, p):
                return [refuse(I, st, c, w + ' missing', err)]
        e = libc.size_e(I, st, n)
        for lim in (eaddc(e, -A.digest), esub(ec(L.ssize_max()), e)):
            if not st.cons.entails(lim):
                if not st.cons.refutes(lim):
                    raise Split(I.alts(st, lim))
                return [refuse(I, st, c, 'digest size out of bounds', err)]
        out = []
        may_fail(I, st, c, 'context finalisation', err, out)
        bo = I.check_ptr(st, buf, c.ins, 'write')
        co = I.check_ptr(st, ctx, c.ins, 'write')
        if bo is None or co is None:
            return out
        I.hooks.range_write(I, st, buf, ec(A.digest), c.ins)
        if not bo.writable:
            I.find(st, 'rowrite', c.ins, 'write to read-only %s' % bo.name)
        elif I.in_bounds(st, bo, buf.off, e, c.ins, 'write'):
            a = state(I, st, ctx, c.ins)
            seq = None
            if a is not None:
                if a.status != 'open':
                    I.find(st, 'ctx-order', c.ins, 'a context is finalised twice')
                seq = digest_seq(a.alg, a.segs)
                st.mon['c:' + ctx.oid] = Abs(a.alg, 'final', a.total, a.segs)
                st.event('final', a.alg, ctx.oid, c.ins)
            m = to_segs(st.mem[buf.oid], bo.size)
            k = src(seq, dom.eneg(buf.off)) if seq is not None else TOPS
            I.seg_put(st, buf.oid, m, buf.off, eaddc(buf.off, A.digest), [(buf.off, eaddc(buf.off, A.digest), k)])
            I.recell(st, buf.oid)
        out.append((st, tm.const(1, 32)))
        return out
    p = 'libhmac_%s_context_' % alg
    return {p + 'initialize': initialize, p + 'free': free, p + 'update': update, p + 'finalize': finalize}

def injected(st):
    """did a step fail that was given what it needs"""
    f = st.mon.get('failed')
    return bool(f) and not f[0][0].startswith('refused: ')

# ---- scenarios
class Scn:
    """one entry point with generic arguments"""
    def __init__(self, f, args, **kw):
        self.f, self.args = f, args
        self.__dict__.update(kw)

class Entry:
    """scenarios of one algorithm in one configuration"""
    def __init__(self, L):
        self.L = L
    def names(self):
        ns = ['context_initialize', 'context_free', 'context_free:null', 'context_update', 'context_finalize']
        if self.L.builtin:
            ns.append('context_transform')
        return ns + ['initialize', 'free', 'free:null', 'update', 'finalize', 'calculate', 'calculate_hmac']
    def level(self, name):
        """context: real context functions; caller: context functions by contract"""
        return 'context' if name.startswith('context_') else 'caller'
    def contracts(self, name, absorb=None, faults=True, extra=None):
        c = {}
        if self.level(name) == 'caller':
            c.update(context_contracts(self.L, faults))
        elif self.L.builtin and name != 'context_transform':
            c.update(transform_contract(self.L, absorb, faults))
        c.update(extra or {})
        return c
    def ctx(self, I, st, name, secret=True):
        L = self.L
        if self.level(name) == 'caller':
            p = I.new(st, 'ctx', 'context', None, content=Cells({}, TOPS))
            st.mon['c:' + p.oid] = Abs(L.alg, 'open', ZERO, ())
            return p
        if L.builtin:
            return L.context(I, st, secret=secret, plain=name == 'context_transform')[0]
        return L.backend_context(I, st)
    def make(self, I, st, name, err_maybe=False, hash_lo=None, hash_hi=None, key=None, size_hi=None):
        """valid arguments of the entry point"""
        L = self.L
        f = L.f(name.split(':')[0])
        err = L.error_arg(I, st, err_maybe)
        sz = L.size('size', L.ssize_max() if size_hi is None else size_hi)
        what = name.split(':')[0].replace('context_', '')
        S = lambda args, **kw: Scn(f, args + [err], name=name, what=what, err=err, size=sz, **kw)
        if what == 'initialize':
            ref = I.new(st, 'arg', 'context reference', L.ps, content=Cells({0: (L.ps, L.null())}, UNDEF))
            return S([ref], ref=ref, ctx=None)
        if what == 'free':
            if name.endswith(':null'):
                ref = I.new(st, 'arg', 'context reference', L.ps, content=Cells({0: (L.ps, L.null())}, UNDEF))
                return S([ref], ref=ref, ctx=None)
            p = self.ctx(I, st, name)
            I.objs[p.oid].kind = 'ctx'
            ref = I.new(st, 'arg', 'context reference', L.ps, content=Cells({0: (L.ps, p)}, UNDEF))
            return S([ref], ref=ref, ctx=p)
        if what in ('update', 'transform'):
            p = self.ctx(I, st, name)
            b = L.input(I, st, sz)
            return S([p, b, sz], ctx=p, buf=b, inputs=[b])
        A = L.A
        hs = quantity('digest_size', L.pw, A.digest if hash_lo is None else hash_lo, L.ssize_max() if hash_hi is None else hash_hi)
        out = I.new(st, 'arg', 'digest', term_e(EMPTY, hs))
        if what == 'finalize':
            p = self.ctx(I, st, name)
            return S([p, out, hs], ctx=p, out=out, hs=hs, inputs=[])
        b = L.input(I, st, sz)
        if what == 'calculate':
            return S([b, sz, out, hs], ctx=None, buf=b, out=out, hs=hs, inputs=[b])
        if what == 'calculate_hmac':
            ks = L.size('key_size', L.ssize_max()) if key is None else key
            k = L.input(I, st, ks, 'key')
            return S([k, ks, b, sz, out, hs], ctx=None, buf=b, key=k, ks=ks, out=out, hs=hs, inputs=[b, k])
        raise AnchorError(name)
    def run(self, name, hooks=None, absorb=None, faults=True, extra=None, setup=None, **kw):
        """(interpreter, scenario, exits)"""
        I = self.L.interp(self.contracts(name, absorb, faults, extra), hooks)
        st = State()
        sc = self.make(I, st, name, **kw)
        sc.before = {o: m for o, m in st.mem.items()}
        sc.base = set(st.live)
        if setup:
            setup(I, st, sc)
        outs = I.run(sc.f, sc.args, st)
        return I, sc, outs

def err_value(I, st, sc):
    """the error recorded through the error argument: True, False (still null) or None"""
    m = st.mem.get(sc.err.oid)
    if m is None:
        return None
    v, _ = read_cells(m, 0, I.prog.ptrsize, I.big)
    if isinstance(v, Ptr):
        return True
    if is_null(I, v):
        return False
    return None

def reachable(I, st, roots):
    """objects reachable from the given objects' contents"""
    seen, todo = set(), list(roots)
    while todo:
        o = todo.pop()
        m = st.mem.get(o)
        if m is None:
            continue
        vs = [v for _, v in m.c.values()] if isinstance(m, Cells) else [k[1] for _, _, k in m.s if k[0] == 'v']
        for v in vs:
            if isinstance(v, Ptr) and v.oid not in seen:
                seen.add(v.oid)
                todo.append(v.oid)
    return seen

def leaked(I, st, sc, ok):
    """heap objects acquired by the call that are still live and not handed out"""
    handed = reachable(I, st, [o for o in sc.base if o in st.mem]) if ok else set()
    return [o for o, l in st.live.items() if l == 'live' and o not in sc.base and I.objs[o].kind in ('heap', 'ctx', 'ext-owned', 'handle') and o not in handed]

BUILTIN_QUICK = ['fb', 'fbr', 'le32']
BUILTIN_ALL = ['fb', 'fbr', 'le32', 'be64', 'be64r', 'be32r', 'local']

def std_tasks(fn, cfgs, algs=None, names=None, extra=()):
    """one task per algorithm, configuration and group of entry points"""
    out = []
    for c in cfgs:
        for a in (algs or ['sha512', 'sha1', 'sha256', 'sha224', 'md5']):
            out.append(('%s %s transform' % (a, c), fn, (c, a, ('context_transform',)) + tuple(extra)))
    for c in cfgs:
        for a in (algs or ['sha512', 'sha1', 'sha256', 'sha224', 'md5']):
            out.append(('%s %s rest' % (a, c), fn, (c, a, None) + tuple(extra)))
    return out

def entry_names(L, names):
    E = Entry(L)
    if names is None:
        names = [n for n in E.names() if n != 'context_transform']
    if not L.builtin:
        names = [n for n in names if n != 'context_transform']
    return E, names
