"""Value analysis of creation and finalisation: for every retained length 0..block-1 and a
symbolic number of preceding blocks, the bytes finalisation hands to the block transform are
collected and compared, byte by byte as value numbers, with message tail, 0x80, the fewest
zeros and the bit length of the standard; the bytes written to the digest buffer are compared
with the serialised chaining words left by the last block. Creation is compared with the
initial value computed from the definition."""
from ..scen import *
from .. import spec

LEVEL = 'proof'
CFGS = ['fb', 'fbr', 'le32', 'be64r', 'be64', 'be32r']
ASSUMPTIONS = ['total message length below 2^61 bytes (the library keeps the bit count in 64 bits)', 'the block transform meets its contract (C02)', 'updates keep the relation checked by C04']
CONCRETE = True
MINIMUM = {'initial state': 5 * 3 * 3, 'padded tail': 5 * 3 * 64, 'serialised digest': 5 * 3 * 64}

def configs(tier):
    return CFGS[:4] if tier == 'quick' else CFGS

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    out = []
    for c in configs(tier):
        for a in ALGS:
            out.append(('init %s %s' % (a, c), init, (c, a)))
            B = spec.ALGS[a].block
            for lo in range(0, B, 32):
                out.append(('final %s %s %d' % (a, c, lo), final, (c, a, lo, min(lo + 32, B))))
    return out

def init(R, cfg, alg):
    L = Lib(cfg, alg)
    if not L.builtin:
        raise AnchorError('context of %s has no hash_values' % alg)
    f = L.f('context_initialize')
    I = L.interp()
    st = State()
    ref = I.new(st, 'arg', 'context', L.ps, content=Cells({0: (L.ps, L.null())}, UNDEF))
    err = L.error_arg(I, st)
    outs = I.run(f, [ref, err], st)
    R.absorb(I)
    n = 0
    for s, v in outs:
        ex = s.fuzzy is None
        if s.mon.get('failed'):
            continue
        if ret_is(v, 1) is not True:
            R.check('initial state', False if ret_is(v, 1) is False else None, f, 'creation of a context fails without a failing step', exact=ex, path=s.path)
            continue
        p, _ = read_cells(s.mem[ref.oid], 0, L.ps, I.big)
        if not isinstance(p, Ptr) or s.live.get(p.oid) != 'live':
            R.check('initial state', None, f, 'no context is handed out')
            continue
        n += 1
        H = ctx_terms(I, L, s, p, 'hash_values', L.A.word)
        bits = L.A.word * 8
        for i, (g, w) in enumerate(zip(H, spec.IV[alg])):
            R.check('initial value', same(g, tm.const(w, bits)), f, 'initial chaining word %d is not the value of the standard [%s]' % (i, cfg), exact=ex, path=s.path)
        for fld in ('hash_count', 'block_offset'):
            g = ctx_terms(I, L, s, p, fld)[0]
            R.check('initial state', same(g, tm.const(0, g.w if isinstance(g, tm.Term) else 64)), f, '%s is not zero in a new context [%s]' % (fld, cfg), exact=ex, path=s.path, sample='%s %s: %s = 0' % (f.name, cfg, fld))
        R.check('initial state', True if p.off == ZERO else None, f, 'context reference')
    if not n:
        R.und('initial state', f.name + ': no successful path')

def final(R, cfg, alg, lo, hi):
    L = Lib(cfg, alg)
    if not L.builtin:
        raise AnchorError('context of %s has no hash_values' % alg)
    f = L.f('context_finalize')
    A = L.A
    B = A.block
    for bo in range(lo, hi):
        def absorb(I, s, ctx, buf, m, c):
            if not econst(m):
                s.mon['bytes'] = None
                return
            segs = content(I, s, buf, buf.off, eadd(buf.off, m))
            if s.mon.get('bytes', ()) is not None:
                s.mon['bytes'] = s.mon.get('bytes', ()) + bytes_of(I, s, segs, buf.off, m[0])
                s.mon['line'] = c.ins.line
        I = L.interp(transform_contract(L, absorb))
        st = State()
        hc = tm.mulc(tm.sym('blocks', 64, 0, (1 << 60) // B - 1), B)
        ctx, b, hc, H, stream = L.context(I, st, bo=tm.const(bo, L.pw), hc=hc)
        out = I.new(st, 'arg', 'hash', A.digest)
        err = L.error_arg(I, st)
        outs = I.run(f, [ctx, out, tm.const(A.digest, L.pw), err], st)
        R.absorb(I)
        # the standard
        total = tm.add(hc, tm.const(bo, 64))
        bits = tm.mulc(total, 8)
        want = [tm.ld(stream, tm.add(hc, tm.const(i, 64))) for i in range(bo)] + [tm.const(0x80, 8)]
        while (len(want) + A.lenbytes) % B:
            want.append(tm.const(0, 8))
        lb = [tm.byte(bits, i) if i < 8 else tm.const(0, 8) for i in range(A.lenbytes)]
        want += lb[::-1] if A.big else lb
        what = '%d retained bytes [%s]' % (bo, cfg)
        succ = 0
        for s, v in outs:
            ex = s.fuzzy is None
            if s.mon.get('failed'):
                continue
            if ret_is(v, 1) is not True:
                R.check('padded tail', False if ret_is(v, 1) is False else None, f, '%s: finalisation fails without a failing step' % what, exact=ex, path=s.path)
                continue
            succ += 1
            got = s.mon.get('bytes', ())
            r, msg = True, ''
            if got is None:
                r, msg = None, 'sizes unknown'
            elif len(got) != len(want):
                r, msg = False, '%d bytes are compressed instead of %d' % (len(got), len(want))
            else:
                for i, (g, w) in enumerate(zip(got, want)):
                    q = same(g, w)
                    if q is not True:
                        r, msg = q, 'byte %d of the padded tail is not the one of the standard (%s instead of %s)' % (i, show_t(g), show_t(w))
                        break
            R.check('padded tail', r, f, '%s: %s' % (what, msg), line=s.mon.get('line'), exact=ex, path=s.path, sample='%s, %s: %d bytes identical' % (f.name, what, len(want)))
            Hn = s.mon.get('H')
            r, msg = True, ''
            for i in range(A.digest):
                g, prob = (read_cells(s.mem[out.oid], i, 1, I.big) if isinstance(s.mem[out.oid], Cells) else read_segs(s.cons, s.mem[out.oid], ec(i), 1, I.big))
                if prob == 'undef':
                    r, msg = False, 'digest byte %d is not written' % i
                    break
                w = tm.const(0, 8)
                j = i % A.word
                if Hn:
                    w = tm.byte(Hn[i // A.word], A.word - 1 - j if A.big else j)
                q = same(g, w)
                if q is not True:
                    r, msg = q, 'digest byte %d is not the one of the standard (%s)' % (i, show_t(g))
                    break
            R.check('serialised digest', r, f, '%s: %s' % (what, msg), exact=ex, path=s.path)
        if not succ:
            R.und('padded tail', '%s: %s: no successful path' % (f.name, what))
        report_trouble(R, I)
