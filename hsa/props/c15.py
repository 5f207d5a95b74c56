"""Typestate and value analysis of the backend configurations: the context functions of every
algorithm are interpreted for the low-level OpenSSL interface and three variants of EVP with
contracts of the backend calls (digest type bound, bytes absorbed, digest written, resources
acquired and released, any call may fail). Creation must leave a live context bound to its own
algorithm with nothing absorbed; an update must absorb exactly the caller's bytes; finalising
must put that algorithm's digest of everything absorbed at the start of the caller's buffer and
nothing elsewhere; freeing must release what was acquired; every failure must be reported and
leave nothing behind; invalid arguments are rejected as in the built-in configuration."""
from ..entry import *
from .. import ossl
from . import c06, c07, c08, c09

LEVEL = 'proof'
ASSUMPTIONS = ['OpenSSL meets its documented interface', 'digest buffers up to UINT_MAX bytes (the type EVP uses)']
CFGS = ['ossl', 'evp', 'evp1', 'evpold']
CONCRETE = True
MINIMUM = {'bound to its algorithm': 4 * 5, 'absorbs exactly the bytes': 4 * 5, 'digest of what was absorbed': 4 * 5, 'failure reported': 4 * 5 * 3, 'nothing leaks': 4 * 5 * 4, 'rejected': 4 * 5 * 8}
NAMES = ['context_initialize', 'context_free', 'context_free:null', 'context_update', 'context_finalize']

def prepare(tier):
    for c in CFGS:
        build.compile_all(c, 'lib')

def tasks(tier):
    return [('%s %s' % (a, c), entry, (c, a)) for c in CFGS for a in ALGS]

class BLib(Lib):
    def backend_context(self, I, st):
        return ossl.backend_context(self, I, st)

class Held(Hooks):
    """an embedded backend context must be cleaned up before its memory is released"""
    def __init__(self, R, cfg):
        self.R, self.cfg = R, cfg
    def free(self, I, st, oid, ins):
        if I.objs[oid].kind == 'handle' or not self.old:
            return
        held = [k for k, a in st.mon.items() if isinstance(k, str) and k.startswith('b:%s+' % oid) and a.status in ossl.HOLDS]
        if held:
            self.R.bad('nothing leaks', ins.file, ins.line, ins.block.func.name, 'the digest context is released without clean up [%s]' % self.cfg, st.fuzzy is None, st.path)

def entry(R, cfg, alg):
    L = BLib(cfg, alg)
    if L.builtin:
        raise AnchorError('%s does not use the backend in configuration %s' % (alg, cfg))
    E = Entry(L)
    D = L.A.digest
    hk = Held(R, cfg)
    hk.old = 'internal_evp_md_context' in L.fields
    for n in NAMES:
        I, sc, outs = E.run(n, hooks=hk, extra=ossl.contracts(), hash_lo=D, hash_hi=(1 << 32) - 1)
        R.absorb(I)
        for F in I.findings:
            if F.kind in c06.KINDS or F.kind in ('ctx-alg', 'ctx-order', 'rowrite'):
                R.finding('backend call', F, '[%s] ' % cfg)
        R.ok('backend call', sum(1 for s, v in outs for e in s.ev if e[0] in ('absorb', 'final', 'bind')) or 1)
        c08.exits(R, I, sc, outs, n, cfg)
        ownership(R, L, I, sc, outs, cfg)
        for s, v in outs:
            ex = s.fuzzy is None
            if ret_is(v, 1) is not True:
                continue
            if sc.what == 'initialize':
                p, _ = read_cells(s.mem[sc.ref.oid], 0, L.ps, I.big)
                r, msg = None, 'no context'
                if isinstance(p, Ptr):
                    r, msg = bound(I, s, L, p)
                R.check('bound to its algorithm', r, sc.f, '%s [%s]' % (msg, cfg), exact=ex, path=s.path, sample='%s [%s]: open %s context, nothing absorbed' % (sc.f.name, cfg, alg))
            elif sc.what == 'update':
                def check(x):
                    a = x.mon.get(ossl.bk(x.mon['$handle']))
                    if a is None:
                        return None, 'unknown context'
                    if a.alg != alg or a.status != 'open':
                        return False, 'the context is %s, bound to %s afterwards' % (a.status, a.alg)
                    T = term_e(EMPTY, tm.sym('absorbed', 64, 0, 1 << 60))
                    n = term_e(EMPTY, sc.size)
                    d = esub(a.total, eadd(T, n))
                    if not x.cons.entails_eq(d):
                        if x.cons.refutes(d) or x.cons.refutes(dom.eneg(d)) or not d[1]:
                            return False, 'the number of bytes absorbed is not the size given'
                        if not x.loose and dom.eexact(d) and dom.model(x.cons, d):
                            return False, 'the number of bytes absorbed is not the size given'
                        return None, 'number of bytes absorbed'
                    seq = I.objs[sc.buf.oid]
                    want = norm(x.cons, a.segs[:1] + shift(content(I, x, sc.buf, ZERO, n), T))
                    got = norm(x.cons, a.segs)
                    if got == want:
                        return True, ''
                    return differs(I, x, got, want)
                r, x = settled(I, s, check)
                R.check('absorbs exactly the bytes', r[0], sc.f, '%s [%s]' % (r[1], cfg), exact=x.fuzzy is None, path=x.path, sample='%s [%s]: STREAM then BUFFER[0..size)' % (sc.f.name, cfg))
            elif sc.what == 'finalize':
                def check(x):
                    m = to_segs(x.mem[sc.out.oid], I.objs[sc.out.oid].size)
                    want = digest_seq(alg, x.mon['$stream'])
                    for i in range(D):
                        v, pr = read_segs(x.cons, m, ec(i), 1, I.big)
                        if pr == 'undef':
                            return False, 'byte %d of the digest is not written' % i
                        if not isinstance(v, tm.Term):
                            return None, 'digest byte %d unknown' % i
                        if v is tm.ld(want, tm.const(i, 64)):
                            continue
                        at = v.ts[0][0] if len(v.ts) == 1 else None
                        if at is None or at.kind != 'ld' or not isinstance(at.args[0], Digest):
                            return None, 'digest byte %d unknown' % i
                        d = at.args[0]
                        if d is want:
                            return False, 'the digest is not written to the start of the buffer'
                        if d.alg != alg:
                            return False, 'the digest written is the one of %s' % d.alg
                        return False, 'the digest is not the one of the bytes absorbed'
                    for lo, hi, k in norm(x.cons, extract(x.cons, m, ec(D), I.objs[sc.out.oid].size, I.big)):
                        if k[0] != 'undef':
                            return (False if x.cons.entails(eaddc(esub(hi, lo), -1)) else None), 'bytes beyond the digest are written'
                    return True, ''
                r, x = settled(I, s, check)
                R.check('digest of what was absorbed', r[0], sc.f, '%s [%s]' % (r[1], cfg), exact=x.fuzzy is None, path=x.path, sample='%s [%s]: %s(STREAM[0..absorbed))' % (sc.f.name, cfg, alg))
    # invalid arguments
    for n in NAMES:
        if n.endswith(':null'):
            continue
        for desc, change in c07.variants(L, n):
            def setup(I, st, sc):
                change(I, st, sc)
                sc.before, sc.base = dict(st.mem), set(st.live)
                sc.bmon = dict(st.mon)
            I, sc, outs = E.run(n, setup=setup, faults=False, extra=ossl.contracts(False), hash_hi=(1 << 32) - 1)
            R.absorb(I)
            tag = '%s [%s]' % (desc, cfg)
            for F in I.findings:
                if F.kind == 'null':
                    R.finding('rejected', F, tag + ': ')
            for s, v in outs:
                ex = s.fuzzy is None
                R.check('rejected', ret_is(v, -1), sc.f, '%s: returns %r instead of -1' % (tag, v), exact=ex, path=s.path, sample='%s: %s' % (sc.f.name, tag))
                R.check('error recorded', err_value(I, s, sc), sc.f, '%s: no error is recorded' % tag, exact=ex, path=s.path)
                ch = [k for k, a in sc.bmon.items() if isinstance(k, str) and k.startswith('b:') and s.mon.get(k) is not a]
                lk = leaked(I, s, sc, False)
                R.check('no effect', not (ch or lk), sc.f, '%s: the context is changed' % tag, exact=ex, path=s.path)

def differs(I, x, got, want):
    return (None if any(k[0] in ('top', 'undef') for _, _, k in got) else False), 'the bytes absorbed are not the ones passed'

def bound(I, s, L, p):
    f = L.fields
    if 'evp_md_context' in f:
        h, _ = read_cells(s.mem[p.oid], f['evp_md_context'][0], L.ps, I.big) if isinstance(s.mem[p.oid], Cells) else read_segs(s.cons, s.mem[p.oid], ec(f['evp_md_context'][0]), L.ps, I.big)
        if is_null(I, h):
            return False, 'the context has no digest context'
        if not isinstance(h, Ptr):
            return None, 'unknown digest context'
        if s.live.get(h.oid) != 'live':
            return False, 'the digest context is released'
        hs = [h]
        a = s.mon.get(ossl.bk(h))
    else:
        ks = [a for k, a in s.mon.items() if isinstance(k, str) and k.startswith('b:%s+' % p.oid)]
        a = ks[0] if len(ks) == 1 else None
    if a is None:
        return (False if not any(k.startswith('b:') for k in s.mon if isinstance(k, str)) else None), 'the digest context is not initialised'
    if a.status != 'open':
        return False, 'the digest context is not initialised'
    if a.alg != L.alg:
        return False, 'the context is bound to %s' % a.alg
    if a.total != ZERO:
        return False, 'a new context has absorbed bytes'
    return True, ''

def ownership(R, L, I, sc, outs, cfg):
    c09.ownership(R, L, I, sc, outs, cfg)
    for s, v in outs:
        h = s.mon.get('$handle')
        if sc.what == 'free' and h is not None and I.objs[h.oid].kind == 'handle':
            R.check('nothing leaks', s.live.get(h.oid) != 'live', sc.f, 'the digest context is not released [%s]' % cfg, exact=s.fuzzy is None, path=s.path)
        elif h is not None and sc.what != 'free':
            R.check('context stays valid', s.live.get(h.oid) == 'live', sc.f, 'the digest context is released [%s]' % cfg, exact=s.fuzzy is None, path=s.path)
