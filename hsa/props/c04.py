"""Relational dataflow over the update functions: starting from any context that has
absorbed hash_count bytes of a stream and retains block_offset more, for any input size the
paths of update are followed with symbolic positions; each call of the block transform must
receive exactly the next bytes of the stream, and every successful exit must re-establish
the same relation (count, retained tail, chaining words) for the stream extended by the
input. Together with the initial state (C03) this gives, by induction over the calls,
independence of any chunking."""
from ..scen import *
from .. import scen

LEVEL = 'proof'
CFGS = ['fb', 'fbr', 'be64', 'le32']
ASSUMPTIONS = ['total length below 2^60 bytes before the call', 'the block transform meets its contract (C02)']
CONCRETE = True
MINIMUM = {'absorbs the stream in order': 5 * 2 * 2, 'relation re-established': 5 * 2 * 3}

def configs(tier):
    return ['fb', 'le32'] if tier == 'quick' else CFGS

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    return [('%s %s' % (a, c), update, (c, a)) for a in ALGS for c in configs(tier)]

def update(R, cfg, alg):
    L = Lib(cfg, alg)
    if not L.builtin:
        raise AnchorError('context of %s has no hash_values' % alg)
    f = L.f('context_update')
    und = case(R, L, f, None)
    if und and not scen.FIX:
        # symbolic positions were not enough: enumerate the retained length
        R.unds = [u for u in R.unds if u not in und]
        for bo in range(L.A.block):
            case(R, L, f, bo)

def case(R, L, f, bo):
    B = L.A.block
    st = State()
    nu = len(R.unds)
    hc = tm.sym('hash_count', 64, 0, 1 << 60)
    def absorb(I, s, ctx, buf, m, c):
        pos = s.mon['pos']
        pe = idx_e(s, pos)
        segs = content(I, s, buf, buf.off, eadd(buf.off, m))
        r = is_source(s, segs, stream, esub(pe, buf.off))
        R.check('absorbs the stream in order', r, f, 'the block transform called at line %s is not given the next bytes of the message (%s)' % (c.ins.line, show(segs)),
                line=c.ins.line, exact=s.fuzzy is None, path=s.path, sample='%s line %s: %s' % (f.name, c.ins.line, show(segs)))
        s.mon['pos'] = toterm(eadd(pe, m))
    I = L.interp(transform_contract(L, absorb))
    b = tm.const(bo, L.pw) if bo is not None else None
    ctx, b, hc, H, stream = L.context(I, st, bo=b, hc=hc)
    size = L.size('size', L.ssize_max())
    he, be, se = idx_e(st, hc), idx_e(st, b), idx_e(st, size)
    buf = I.new(st, 'arg', 'buffer', se, content=Cells({}, src(stream, eadd(he, be))), writable=False)
    err = L.error_arg(I, st)
    st.mon['pos'] = hc
    st.mon['H'] = tuple(H)
    outs = I.run(f, [ctx, buf, size, err], st)
    R.absorb(I)
    ob, nb, _ = L.field('block')
    for s, v in outs:
        if s.mon.get('failed'):
            continue
        ex = s.fuzzy is None
        if ret_is(v, -1):
            R.check('relation re-established', False, f, 'a valid update fails', exact=ex, path=s.path)
            continue
        # where the relation depends on undecided facts, partition further
        todo = [s]
        n = 0
        while todo:
            s = todo.pop()
            n += 1
            if n > 64:
                R.und('relation re-established', f.name + ': too many partitions')
                break
            try:
                relation(R, L, I, f, s, ctx, stream, eadd(he, be, 1), se, ob, B)
            except NeedSplit as x:
                todo += I.alts(s, x.e)
            except Split as x:
                todo += x.states
    report_trouble(R, I)
    return R.unds[nu:]

def show(segs):
    return ', '.join('%s..%s %s' % (dom.eshow(l), dom.eshow(h), segshow(k)) for l, h, k in segs)

def relation(R, L, I, f, s, ctx, stream, before, se, ob, B):
    ex = s.fuzzy is None
    total = eadd(before, se)
    pe = idx_e(s, s.mon['pos'])
    hc2 = ctx_terms(I, L, s, ctx, 'hash_count')[0]
    bo2 = ctx_terms(I, L, s, ctx, 'block_offset')[0]
    H2 = tuple(ctx_terms(I, L, s, ctx, 'hash_values', L.A.word))
    rule = 'relation re-established'
    if not isinstance(hc2, tm.Term) or not isinstance(bo2, tm.Term):
        R.und(rule, '%s: count or offset unknown' % f.name)
        return
    he, be = I.toe(s, hc2), I.toe(s, bo2)
    results = []
    def eq(a, b, msg):
        d = esub(a, b)
        if s.cons.entails_eq(d):
            r = True
        elif s.cons.refutes(d) or s.cons.refutes(dom.eneg(d)):
            r = False
        elif dom.eexact(d):
            # not equal in general: some concrete values in this partition differ
            r = False if witness(s, d) else None
        else:
            r = None
        R.check(rule, r, f, msg, exact=ex, path=s.path, sample='%s: %s = %s under %r' % (f.name, dom.eshow(a), dom.eshow(b), s.cons))
        return r
    eq(he, pe, 'the byte count afterwards is %s but %s bytes were compressed' % (dom.eshow(he), dom.eshow(pe)))
    eq(be, esub(total, pe), '%s bytes are retained although %s remain uncompressed' % (dom.eshow(be), dom.eshow(esub(total, pe))))
    lim = esub(ec(B - 1), be)
    R.check(rule, True if s.cons.entails(lim) else (False if s.cons.refutes(lim) or witness(s, dom.eneg(eaddc(lim, 1)), 1) else None), f, 'the retained length %s may reach a whole block' % dom.eshow(be), exact=ex, path=s.path)
    if s.cons.entails(be) and s.cons.entails(lim):
        segs = content(I, s, ctx, ec(ob), eaddc(be, ob))
        r = is_source(s, segs, stream, esub(pe, ec(ob)))
        R.check(rule, r, f, 'the retained bytes are not the tail of the message (%s)' % show(segs), exact=ex, path=s.path)
    same = H2 == s.mon['H']
    if not isinstance(s.mon['H'], tuple):
        R.und(rule, '%s: the chaining words are not determined' % f.name)
        return
    R.check(rule, True if same else (False if all(isinstance(x, tm.Term) for x in H2) and any(tm.differ(x, y) for x, y in zip(H2, s.mon['H'])) else None), f, 'the chaining words are changed outside the block transform', exact=ex, path=s.path)

def witness(s, d, op=0):
    """the constraints leave room for d != 0 (op 0) or d >= 0 (op 1): the partition has
    an integer point there (decided by eliminating all atoms)"""
    for x in ((eaddc(d, -1), eaddc(dom.eneg(d), -1)) if op == 0 else (d,)):
        if s.cons.add(x) is not None:
            return True
    return False
