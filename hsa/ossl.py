"""Contracts of the OpenSSL digest interfaces (low-level, EVP, EVP before 1.1): which digest a
context is bound to, what it has absorbed, what a call reads, writes, acquires and releases."""
from .entry import *
from . import libc, spec

def bk(p):
    return 'b:%s+%s' % (p.oid, dom.eshow(p.off))

FAMILY = {'MD5': ('md5',), 'SHA1': ('sha1',), 'SHA224': ('sha224', 'sha256'), 'SHA256': ('sha224', 'sha256'), 'SHA384': ('sha384', 'sha512'), 'SHA512': ('sha384', 'sha512')}
DIGEST = {'md5': 16, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64}
# status of a context: raw (nothing done) | init (EVP context without a digest) | open | final | clean
HOLDS = ('open', 'final')

def failing(I, st, c, what, v=None):
    libc.fail(st, what, c.ins)
    return (st, tm.const(0, 32) if v is None else v)

def may_fail(I, st, c, what, out, faults, v=None):
    if faults and libc.used(c):
        out.append(failing(I, st.fork(), c, what, v))

def absorb(I, st, c, ctx, buf, n, algs, out, faults, what):
    a = None
    if isinstance(ctx, Ptr):
        if need_nn(I, st, ctx):
            I.find(st, 'null', c.ins, 'null context passed to %s' % c.name)
            return
        I.check_ptr(st, ctx, c.ins, 'write')
        a = st.mon.get(bk(ctx))
        if a is None:
            st.blur('unknown backend context')
        elif a.status != 'open':
            I.find(st, 'ctx-order', c.ins, '%s on a context that is %s' % (c.name, {'raw': 'not initialised', 'init': 'not initialised', 'final': 'already finalised', 'clean': 'already cleaned up'}[a.status]))
            a = None
        elif a.alg not in algs:
            I.find(st, 'ctx-alg', c.ins, '%s on a %s context' % (c.name, a.alg))
            a = None
    else:
        I.find(st, 'null', c.ins, 'null context passed to %s' % c.name)
        return
    e = libc.size_e(I, st, n)
    may_fail(I, st, c, what, out, faults)
    zero = econst(e) and e[0] == 0
    if not zero:
        bo = I.check_ptr(st, buf, c.ins, 'read')
        if bo is None:
            return
        I.hooks.range_read(I, st, buf, e, c.ins)
        if not I.in_bounds(st, bo, buf.off, e, c.ins, 'read'):
            return
        if a is not None:
            segs = shift(content(I, st, buf, buf.off, eadd(buf.off, e)), esub(a.total, buf.off))
            st.mon[bk(ctx)] = Abs(a.alg, a.status, eadd(a.total, e), norm(st.cons, a.segs + segs))
    st.event('absorb', c.ins)
    out.append((st, tm.const(1, 32)))

def final(I, st, c, ctx, md, sz, algs, out, faults, clean=False):
    if not isinstance(ctx, Ptr) or need_nn(I, st, ctx):
        I.find(st, 'null', c.ins, 'null context passed to %s' % c.name)
        return
    I.check_ptr(st, ctx, c.ins, 'write')
    a = st.mon.get(bk(ctx))
    if a is None:
        st.blur('unknown backend context')
    elif a.status != 'open':
        I.find(st, 'ctx-order', c.ins, '%s on a context that is %s' % (c.name, {'raw': 'not initialised', 'init': 'not initialised', 'final': 'already finalised', 'clean': 'already cleaned up'}[a.status]))
        a = None
    elif a.alg not in algs:
        I.find(st, 'ctx-alg', c.ins, '%s on a %s context' % (c.name, a.alg))
        a = None
    may_fail(I, st, c, 'digest finalisation', out, faults)
    mo = I.check_ptr(st, md, c.ins, 'write')
    if mo is None:
        return
    d = ec(DIGEST[a.alg]) if a is not None else ec(DIGEST[algs[-1]])
    I.hooks.range_write(I, st, md, d, c.ins)
    if not mo.writable:
        I.find(st, 'rowrite', c.ins, 'write to read-only %s' % mo.name)
    elif I.in_bounds(st, mo, md.off, d, c.ins, 'write'):
        k = src(digest_seq(a.alg, a.segs), dom.eneg(md.off)) if a is not None else TOPS
        m = to_segs(st.mem[md.oid], mo.size)
        I.seg_put(st, md.oid, m, md.off, eadd(md.off, d), [(md.off, eadd(md.off, d), k)])
        I.recell(st, md.oid)
        if a is not None:
            st.mon[bk(ctx)] = Abs(a.alg, 'clean' if clean else 'final', a.total, a.segs)
    if isinstance(sz, Ptr) and not need_nn(I, st, sz):
        if I.check_ptr(st, sz, c.ins, 'write') is not None:
            I.store(st, sz, 4, tm.const(d[0], 32), c.ins)
    st.event('final', c.ins)
    out.append((st, tm.const(1, 32)))

def bind(I, st, c, ctx, alg, out, faults):
    if not isinstance(ctx, Ptr) or need_nn(I, st, ctx):
        I.find(st, 'null', c.ins, 'null context passed to %s' % c.name)
        return
    if I.check_ptr(st, ctx, c.ins, 'write') is None:
        return
    may_fail(I, st, c, 'digest initialisation', out, faults)
    if alg is None:
        st.blur('unknown digest type')
    else:
        st.mon[bk(ctx)] = Abs(alg, 'open', ZERO, ())
    st.event('bind', alg, c.ins)
    out.append((st, tm.const(1, 32)))

def contracts(faults=True):
    out = {}
    for h, algs in FAMILY.items():
        def init(I, st, c, alg=h.lower()):
            o = []
            bind(I, st, c, c.args[0], alg, o, faults)
            return o
        def update(I, st, c, algs=algs):
            o = []
            absorb(I, st, c, c.args[0], c.args[1], c.args[2], algs, o, faults, 'digest update')
            return o
        def fin(I, st, c, algs=algs):
            o = []
            final(I, st, c, c.args[1], c.args[0], None, algs, o, faults)
            return o
        out.update({h + '_Init': init, h + '_Update': update, h + '_Final': fin})
    EV = ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512')
    for a in EV:
        def md(I, st, c, a=a):
            oid = 'md:' + a
            if oid not in I.objs:
                I.objs[oid] = interp.Obj(oid, 'ext', 'EVP_' + a, None, writable=False)
            st.live[oid], st.nul[oid] = 'live', 'nn'
            st.mem.setdefault(oid, Cells({}, TOP))
            return [(st, Ptr(oid))]
        out['EVP_' + a] = md
    def new(I, st, c):
        o = []
        may_fail(I, st, c, 'creation of the digest context', o, faults, I.lib.null())
        p = I.new(st, 'handle', 'EVP_MD_CTX@%d' % c.ins.line, None, content=Cells({}, TOPS), site=c.ins)
        st.mon[bk(p)] = Abs('?', 'init', ZERO, ())
        st.event('alloc', p.oid, c.ins)
        o.append((st, p))
        return o
    def mdfree(I, st, c):
        p = c.args[0]
        if isinstance(p, Ptr):
            if not need_nn(I, st, p):
                if I.objs[p.oid].kind != 'handle':
                    I.find(st, 'bad-free', c.ins, '%s is passed to %s' % (I.objs[p.oid].name, c.name))
                else:
                    libc.release(I, st, p, c.ins)
                    st.mon.pop(bk(p), None)
        elif not is_null(I, p):
            st.blur('release of an unknown pointer')
        return [(st, None)]
    def alg_of(I, st, c, t):
        if isinstance(t, Ptr) and t.oid.startswith('md:'):
            return t.oid[3:]
        if is_null(I, t):
            I.find(st, 'null', c.ins, 'no digest type passed to %s' % c.name)
        return None
    def dinit(I, st, c):
        o = []
        bind(I, st, c, c.args[0], alg_of(I, st, c, c.args[1]), o, faults)
        return o
    def dupdate(I, st, c):
        o = []
        absorb(I, st, c, c.args[0], c.args[1], c.args[2], EV, o, faults, 'digest update')
        return o
    def dfinal(I, st, c):
        o = []
        final(I, st, c, c.args[0], c.args[1], c.args[2], EV, o, faults, clean=c.name == 'EVP_DigestFinal')
        return o
    def oinit(I, st, c):
        p = c.args[0]
        if isinstance(p, Ptr) and I.check_ptr(st, p, c.ins, 'write') is not None:
            st.mon[bk(p)] = Abs('?', 'init', ZERO, ())
        return [(st, None)]
    def ocleanup(I, st, c):
        o = []
        p = c.args[0]
        if not isinstance(p, Ptr) or I.check_ptr(st, p, c.ins, 'write') is None:
            return [(st, tm.const(1, 32))]
        a = st.mon.get(bk(p))
        if a is None:
            st.blur('unknown backend context')
        elif a.status in ('clean', 'raw'):
            I.find(st, 'double-free', c.ins, 'the digest context is cleaned up although it is %s' % ('not set up' if a.status == 'raw' else 'cleaned up already'))
        st.mon[bk(p)] = Abs('?', 'clean', ZERO, ())
        may_fail(I, st, c, 'clean up of the digest context', o, faults)
        o.append((st, tm.const(1, 32)))
        return o
    out.update({'EVP_MD_CTX_new': new, 'EVP_MD_CTX_create': new, 'EVP_MD_CTX_free': mdfree, 'EVP_MD_CTX_destroy': mdfree,
                'EVP_DigestInit_ex': dinit, 'EVP_DigestInit_ex2': dinit, 'EVP_DigestInit': dinit, 'EVP_DigestUpdate': dupdate,
                'EVP_DigestFinal_ex': dfinal, 'EVP_DigestFinal': dfinal, 'EVP_MD_CTX_init': oinit, 'EVP_MD_CTX_cleanup': ocleanup,
                'ERR_remove_thread_state': libc.nothing, 'ERR_clear_error': libc.nothing})
    return out

def backend_context(L, I, st, status='open'):
    """a valid context of the backend that has absorbed STREAM[0..absorbed)"""
    n = tm.sym('absorbed', 64, 0, 1 << 60)
    e = term_e(EMPTY, n)
    seq = Seq('STREAM')
    a = Abs(L.alg, status, e, ((ZERO, e, src(seq)),))
    f = L.fields
    p = I.new(st, 'ctx', 'context', L.csize, content=Cells({}, TOPS))
    if 'evp_md_context' in f:
        off, size, _ = f['evp_md_context']
        if 'internal_evp_md_context' in f:
            h = Ptr(p.oid, ec(f['internal_evp_md_context'][0]))
        else:
            h = I.new(st, 'handle', 'EVP_MD_CTX', None, content=Cells({}, TOPS))
        I.store(st, p if not off else Ptr(p.oid, ec(off)), L.ps, h, None)
    else:
        fs = sorted(f.items(), key=lambda x: x[1][0])
        if not fs:
            raise AnchorError('context of %s is empty' % L.alg)
        h = Ptr(p.oid, ec(f[L.alg + '_context'][0] if L.alg + '_context' in f else fs[0][1][0]))
    st.mon[bk(h)] = a
    st.mon['$handle'] = h
    st.mon['$stream'] = a.segs
    return p
