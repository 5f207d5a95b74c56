"""Relational comparison of the one-shot and deprecated entry points with the incremental
interface: every path of each wrapper is followed with the context functions replaced by
their contract (what is absorbed, which digest symbol is produced, which reference is set or
cleared); the resulting effect must be that of the corresponding current function of the same
algorithm on the same arguments, and the one-shot result must be the digest symbol of exactly
the caller's buffer."""
from ..entry import *
from .c01 import digest_of, total, length_is, tail_is, inputseq

LEVEL = 'proof'
TRUSTED = ['the contract of the context functions in /verif/hsa/entry.py']
CFGS = ['fb', 'le32', 'evp', 'ossl', 'local']
CONCRETE = True
MINIMUM = {'one-shot digest': 5 * 4, 'same effect': 5 * 4 * 5}

def prepare(tier):
    for c in CFGS:
        build.compile_all(c, 'lib')

def tasks(tier):
    return [('%s %s' % (a, c), wrappers, (c, a)) for c in CFGS for a in ALGS]

def wrappers(R, cfg, alg):
    L = Lib(cfg, alg)
    E = Entry(L)
    A = L.A
    def setup(I, st, sc):
        if getattr(sc, 'buf', None):
            st.mon['$buf'] = inputseq(st, sc.buf)
        if sc.what in ('update', 'finalize', 'free') and sc.ctx is not None:
            # anything absorbed before
            n = tm.sym('absorbed before', 64, 0, 1 << 60)
            e = term_e(EMPTY, n)
            q = Seq('BEFORE')
            st.mon['$prior'] = (e, q)
            st.mon['c:' + sc.ctx.oid] = Abs(alg, 'open', e, ((ZERO, e, src(q)),))
    for name in ('initialize', 'free', 'free:null', 'update', 'finalize', 'calculate'):
        if L.P.funcs.get(L.name(name.split(':')[0])) is None:
            if name == 'calculate':
                raise AnchorError('%s is not defined' % L.name('calculate'))
            R.und('same effect', '%s is not defined in this configuration' % L.name(name))
            continue
        I, sc, outs = E.run(name, setup=setup)
        R.absorb(I)
        f = sc.f
        size = term_e(EMPTY, sc.size)
        okn = 0
        for s, v in outs:
            ex = s.fuzzy is None
            failed = s.mon.get('failed')
            rule = 'one-shot digest' if name == 'calculate' else 'same effect'
            tag = ' [%s]' % cfg
            one = ret_is(v, 1)
            if one is not True:
                if ret_is(v, -1) is not True:
                    R.check(rule, False if isinstance(v, tm.Term) and not v.ts else None, f, 'returns %r instead of 1 or -1%s' % (v, tag), exact=ex, path=s.path)
                elif not injected(s):
                    R.check(rule, False, f, 'fails although every step it may take succeeds%s' % tag, exact=ex, path=s.path)
                continue
            okn += 1
            (r, msg), s = settled(I, s, lambda x: effect(L, I, sc, x, name, alg, size))
            ex = s.fuzzy is None
            R.check(rule, r, f, msg + tag, exact=ex, path=s.path, sample='%s [%s]' % (f.name, cfg))
        if not okn:
            R.und('same effect', '%s: no successful path' % f.name)
        for F in I.findings:
            if F.kind in ('ctx-alg', 'ctx-order'):
                R.finding('context use', F)
        report_trouble(R, I)

def effect(L, I, sc, s, name, alg, size):
    failed = s.mon.get('failed')
    A = L.A
    r, msg = True, ''
    if failed and name != 'calculate':
        r, msg = False, 'returns 1 although %s failed' % failed[0][0]
    elif name == 'initialize':
        p, _ = read_cells(s.mem[sc.ref.oid], 0, L.ps, I.big)
        a = s.mon.get('c:' + p.oid) if isinstance(p, Ptr) else None
        if a is None:
            r, msg = False if is_null(I, p) else None, 'no context is handed out'
        elif (a.alg, a.status, a.segs) != (alg, 'open', ()):
            r, msg = False, 'the context handed out is %r' % a
    elif name.startswith('free'):
        p, _ = read_cells(s.mem[sc.ref.oid], 0, L.ps, I.big)
        if not is_null(I, p):
            r, msg = False if isinstance(p, Ptr) else None, 'the reference is not cleared'
        elif sc.ctx is not None and s.live.get(sc.ctx.oid) == 'live':
            r, msg = False, 'the context is not released'
    elif name == 'update':
        a = s.mon.get('c:' + sc.ctx.oid)
        pe, q = s.mon['$prior']
        r = length_is(s, a.total, eadd(pe, size))
        msg = 'the context absorbs %s bytes instead of %s' % (dom.eshow(esub(a.total, pe)), dom.eshow(size))
        if r is True:
            r = tail_is(s, a.segs, pe, eadd(pe, size), s.mon['$buf'], dom.eneg(pe))
            msg = 'the bytes absorbed are not those of the buffer'
        if r is True and a.status != 'open':
            r, msg = False, 'the context is finalised'
    elif name in ('finalize', 'calculate'):
        d, msg = digest_of(s, to_segs(s.mem[sc.out.oid], I.objs[sc.out.oid].size).s, ZERO, A.digest, alg)
        if not isinstance(d, Digest):
            r = d
        elif d.alg != alg:
            r, msg = False, 'the result is a %s digest' % d.alg
        elif name == 'finalize':
            a = s.mon.get('c:' + sc.ctx.oid)
            pe, q = s.mon['$prior']
            if a.status != 'final':
                r, msg = False, 'the context is not finalised'
            else:
                r = length_is(s, total(d.of.segs), pe)
                if r is True:
                    r = tail_is(s, d.of.segs, ZERO, pe, q, ZERO)
                msg = 'the digest is not that of what the context absorbed'
        else:
            r = length_is(s, total(d.of.segs), size)
            msg = 'the digest is over %s bytes instead of %s' % (dom.eshow(total(d.of.segs)), dom.eshow(size))
            if r is True:
                r = tail_is(s, d.of.segs, ZERO, size, s.mon['$buf'], ZERO)
                msg = 'the digest is not over the bytes of the buffer (%s)' % (d.of,)
    return r, msg
