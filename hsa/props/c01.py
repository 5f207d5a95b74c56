"""Symbolic dataflow through every path of the one-shot HMAC functions, with the context
functions replaced by their contract (a context absorbs a byte sequence, finalising yields
the digest symbol of that sequence): for every key length 0..block and for all longer keys,
and any message length, the digest symbol that reaches the caller's buffer on each successful
path is taken apart and compared byte by byte with RFC 2104."""
from ..entry import *

LEVEL = 'proof'
ASSUMPTIONS = ['the context functions compute the digest of the bytes fed to them (C02, C03, C04, C15)']
TRUSTED = ['the contract of the context functions in /verif/hsa/entry.py']
QUICK = ['fb', 'le32', 'evp', 'ossl']
CFGS = ['fb', 'le32', 'be64', 'be32r', 'evp', 'evp1', 'evpold', 'ossl']
CONCRETE = True
MINIMUM = {'RFC 2104': 5 * 66}

def configs(tier):
    return QUICK if tier == 'quick' else CFGS

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    out = []
    for c in configs(tier):
        for a in ALGS:
            B = spec.ALGS[a].block
            out.append(('%s %s long' % (a, c), case, (c, a, None, True)))
            ks = list(range(0, B + 1)) if c == 'fb' or tier != 'quick' else [0, 1, B - 1, B]
            for i in range(0, len(ks), 22):
                out.append(('%s %s %d' % (a, c, ks[i]), keys, (c, a, ks[i:i + 22])))
    return out

def keys(R, cfg, alg, ks):
    for k in ks:
        case(R, cfg, alg, k, False)

def digest_of(st, segs, lo, n, alg):
    """the Digest all of whose n bytes stand at lo.. : (digest, problem)"""
    d = None
    for i in range(n):
        b, prob = read_byte(st.cons, Segs(segs), eaddc(lo, i), 1, False)
        if prob in ('undef', 'oob'):
            return False, 'byte %d is not written' % i
        if not isinstance(b, tm.Term):
            return None, 'byte %d unknown' % i
        b = resolve(st.cons, b)
        if len(b.ts) != 1 or b.c or b.ts[0][0].kind != 'ld' or not isinstance(b.ts[0][0].args[0], Digest):
            # a byte that is no digest byte at all
            return (False if b.exact else None), 'byte %d is %s, not a digest byte' % (i, show_t(b))
        q, x = b.ts[0][0].args
        if x.ts or x.c != i:
            return False, 'byte %d of the output is byte %s of a digest' % (i, show_t(x))
        if d is None:
            d = q
        elif d is not q:
            return False, 'bytes of different digests are mixed'
    return d, ''

def total(segs):
    return segs[-1][1] if segs else ZERO

def compare_bytes(st, segs, want):
    for i, w in enumerate(want):
        b, prob = read_byte(st.cons, Segs(segs), ec(i), 1, False)
        if prob == 'oob':
            return False, 'only %d bytes' % i
        if prob == 'undef':
            return False, 'byte %d uninitialised' % i
        r = same(resolve(st.cons, b) if isinstance(b, tm.Term) else b, w)
        if r is not True:
            return r, 'byte %d is %s instead of %s' % (i, show_t(b), show_t(w))
    return True, ''

def length_is(st, e, want):
    return is_zero(st, esub(e, want))

def tail_is(st, segs, lo, hi, seq, delta):
    """[lo, hi) is the part of the source"""
    x = norm(st.cons, extract(st.cons, Segs(segs), lo, hi, False))
    return is_source(st, x, seq, delta)

def hmac(L, st, segs, alg, ks, size):
    """(verdict, message) for the digest at the start of segs"""
    A, B, D = L.A, L.A.block, L.A.digest
    outer, msg = digest_of(st, segs, ZERO, D, alg)
    if not isinstance(outer, Digest):
        return outer, 'result: ' + msg
    if outer.alg != alg:
        return False, 'the result is a %s digest' % outer.alg
    o = outer.of.segs
    inner, msg = digest_of(st, o, ec(B), D, alg)
    if not isinstance(inner, Digest):
        return inner, 'input of the outer hash: ' + msg
    if inner.alg != alg:
        return False, 'the inner hash is %s' % inner.alg
    r = length_is(st, total(o), ec(B + D))
    if r is not True:
        return r, 'the outer hash is over %s bytes instead of %d' % (dom.eshow(total(o)), B + D)
    key = st.mon['$key']
    if ks is not None:
        k0 = [tm.ld(key, tm.const(i, 64)) if i < ks else tm.const(0, 8) for i in range(B)]
    else:
        # the hash of the key; identified through the first byte of the inner padding
        b, _ = read_byte(st.cons, Segs(inner.of.segs), ZERO, 1, False)
        kd = None
        if isinstance(b, tm.Term):
            for a in tm.atoms_of(resolve(st.cons, b)):
                if a.kind == 'ld' and isinstance(a.args[0], Digest):
                    kd = a.args[0]
        if kd is None:
            b2 = resolve(st.cons, b) if isinstance(b, tm.Term) else None
            return (False if b2 is not None and b2.exact else None), 'a key longer than a block is not hashed (padding starts with %s)' % show_t(b)
        if kd.alg != alg:
            return False, 'a long key is hashed with %s' % kd.alg
        kse = st.mon['$ks']
        r = length_is(st, total(kd.of.segs), kse)
        if r is not True:
            return r, 'the hash of a long key is over %s bytes' % dom.eshow(total(kd.of.segs))
        r = tail_is(st, kd.of.segs, ZERO, kse, key, ZERO)
        if r is not True:
            return r, 'the hash of a long key is not over the key (%s)' % (kd.of,)
        k0 = [tm.ld(kd, tm.const(i, 64)) if i < D else tm.const(0, 8) for i in range(B)]
    for what, segs2, pad in (('inner', inner.of.segs, 0x36), ('outer', o, 0x5c)):
        r, msg = compare_bytes(st, segs2, [tm.xor(k, tm.const(pad, 8)) for k in k0])
        if r is not True:
            return r, '%s padding: %s' % (what, msg)
    i = inner.of.segs
    r = length_is(st, total(i), eaddc(size, B))
    if r is not True:
        return r, 'the inner hash is over %s bytes instead of %s' % (dom.eshow(total(i)), dom.eshow(eaddc(size, B)))
    r = tail_is(st, i, ec(B), eaddc(size, B), st.mon['$buf'], ec(-B))
    if r is not True:
        return r, 'the inner hash is not over the message after the padding (%s)' % (inner.of,)
    return True, ''

def case(R, cfg, alg, ks, faults):
    L = Lib(cfg, alg)
    B = L.A.block
    E = Entry(L)
    kt = tm.const(ks, L.pw) if ks is not None else quantity('key_size', L.pw, B + 1, L.ssize_max())
    def setup(I, st, sc):
        for w in ('buf', 'key'):
            o = getattr(sc, w)
            st.mon['$' + w] = inputseq(st, o)
        st.mon['$ks'] = term_e(EMPTY, kt)
    runs = [True, False] if faults else [False]
    for flt in [faults]:
        I, sc, outs = E.run('calculate_hmac', faults=flt, key=kt, setup=setup)
        R.absorb(I)
        f = sc.f
        what = ('key of %d bytes' % ks if ks is not None else 'key longer than a block') + ' [%s]' % cfg
        n = 0
        for s, v in outs:
            r = ret_is(v, 1)
            if r is not True:
                if not injected(s):
                    R.check('RFC 2104', False if ret_is(v, -1) else None, f, '%s: a valid calculation fails%s' % (what, ''.join(' (%s, line %d)' % x for x in s.mon.get('failed', ())[:1])), exact=s.fuzzy is None, path=s.path)
                continue
            n += 1
            (r, msg), s = settled(I, s, lambda x: hmac(L, x, to_segs(x.mem[sc.out.oid], I.objs[sc.out.oid].size).s, alg, ks, term_e(EMPTY, sc.size)))
            R.check('RFC 2104', r, f, '%s: %s' % (what, msg), exact=s.fuzzy is None, path=s.path, sample='%s, %s: digest of (K0^opad | digest of (K0^ipad | message))' % (f.name, what))
        if not n:
            R.und('RFC 2104', '%s: %s: no successful path' % (f.name, what))
        for F in I.findings:
            if F.kind in ('ctx-alg', 'ctx-order'):
                R.finding('context use', F)
        report_trouble(R, I)

def inputseq(st, p):
    m = st.mem[p.oid]
    return m.gap[3][0].ts[0][0].args[0]
