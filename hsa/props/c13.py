"""Array-content analysis of the caller's digest buffer: the buffer has any stated size of at
least the digest, all bytes of it start out unwritten; on every successful path exactly the
first digest-size bytes must have been written and the rest must still be unwritten."""
from ..entry import *

LEVEL = 'proof'
CONCRETE = True
MINIMUM = {'all digest bytes written': 5 * 3 * 4, 'nothing beyond': 5 * 3 * 4}
NAMES = ('context_finalize', 'finalize', 'calculate', 'calculate_hmac')

def configs(tier):
    return ['fb', 'fbr', 'le32', 'be64'] if tier == 'quick' else BUILTIN_ALL

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    return [('%s %s' % (a, c), entry, (c, a)) for c in configs(tier) for a in ALGS]

def entry(R, cfg, alg):
    L = Lib(cfg, alg)
    E = Entry(L)
    D = L.A.digest
    for n in NAMES:
        I, sc, outs = E.run(n, hash_lo=D)
        R.absorb(I)
        succ = 0
        size = I.objs[sc.out.oid].size
        for s, v in outs:
            if ret_is(v, 1) is not True:
                continue
            succ += 1
            def check(x):
                segs = to_segs(x.mem[sc.out.oid], size).s
                for i in range(D):
                    b, prob = read_byte(x.cons, Segs(segs), ec(i), 1, I.big)
                    if prob == 'undef':
                        return False, 'byte %d of the digest is not written' % i, 'all digest bytes written'
                rest = norm(x.cons, extract(x.cons, Segs(segs), ec(D), size, I.big))
                for lo, hi, k in rest:
                    if k[0] != 'undef':
                        if x.cons.entails(eaddc(esub(hi, lo), -1)):
                            return False, 'bytes %s to %s of the buffer, beyond the digest, are written' % (dom.eshow(lo), dom.eshow(hi)), 'nothing beyond'
                        return None, 'contents beyond the digest', 'nothing beyond'
                return True, '', ''
            r, x = settled(I, s, check)
            if r[0] is True:
                R.ok('all digest bytes written', sample='%s [%s]: bytes 0..%d, buffer of any size' % (sc.f.name, cfg, D - 1))
                R.ok('nothing beyond')
            else:
                R.check(r[2] if len(r) > 2 else 'nothing beyond', r[0], sc.f, r[1] + ' [%s]' % cfg, exact=x.fuzzy is None, path=x.path)
        if not succ:
            R.und('all digest bytes written', '%s: no successful path' % sc.f.name)
        report_trouble(R, I, kinds=('null', 'wild', 'diverge', 'recursion'))
