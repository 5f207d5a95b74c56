"""The input loop of the sum tool, decided on its IR: the file is a symbolic sequence of a
symbolic size, a read delivers any amount up to what was asked for, and every digest context
records how many bytes of the sequence it absorbed in order.  An inductive invariant (what was
read equals what was hashed equals what was counted) covers inputs of every size; short inputs
are also followed exactly."""
from ..sumtool import *

LEVEL = 'proof'
ASSUMPTIONS = ['libcfile reads sequentially and delivers at most what was asked for', 'the digest contexts and the hexadecimal conversion behave as C01-C05 and C22 establish', 'the size reported for the input fits in a signed 64-bit number']
MINIMUM = {'each byte once': 60, 'failure reported': 30, 'bytes in order': 20}

def prepare(tier):
    build.compile_all(CFG, 'tools')

def subsets(tier):
    every = [a for a in ALGS if a != 'md5']
    if tier != 'quick':
        return [tuple(a for i, a in enumerate(every) if m >> i & 1) for m in range(16)]
    return [(), ('sha1',), ('sha224',), ('sha256',), ('sha512',), tuple(every)]

def tasks(tier):
    t = [('any size %s' % ('+'.join(s) or 'md5'), general, (s, True)) for s in subsets(tier)]
    t += [('any size default buffer', general, ((), False))]
    k = 3 if tier == 'quick' else 5
    t += [('%d reads of any size' % k, few, (k, x)) for x in (False, True)]
    t += [('%d bytes' % n, small, (n, b)) for n in range(5 if tier == 'quick' else 8) for b in ((1, 2, 3, 4) if tier == 'quick' else range(1, 9))]
    t += [('%d bytes %s' % (n, '+'.join(s) or 'md5'), small, (n, b, s)) for n, b in ((2, 1), (3, 2)) for s in subsets('thorough')]
    t += [('shrunk input', shrunk, ())]
    t += [('%#x bytes at once' % n, large, (n,)) for n in LARGE]
    return t

def outcome(R, T, s, v, digests, media, what, proof=True):
    """a handle after processing"""
    I, f = T.I, T.f
    ex = s.fuzzy is None
    failed = s.mon.get('failed')
    ok, no = ret_is(v, 1), ret_is(v, -1)
    if failed:
        r = True if no else (False if ok or isinstance(v, tm.Term) and not v.ts else None)
        R.check('failure reported', r, f, '%s but %r is returned' % (failed[0][0], v), exact=ex, line=failed[0][1], path=s.path, sample='%s: %s' % (what, failed[0][0]))
        if no:
            R.check('failure reported', err_value(I, s, T), f, '%s but no error is recorded' % failed[0][0], exact=ex, line=failed[0][1], path=s.path)
        return
    if not ok:
        r = False if no or isinstance(v, tm.Term) and not v.ts else None
        if r is False and (proof or s.loose or not model(s, s.cons)):
            r = None
        R.check('success reported', r, f, 'processing gives %r although no step failed (%s)' % (v, what), exact=ex, path=s.path)
        return
    R.check('success reported', True, f, '')
    fins = s.mon.get('$fin', ())
    for a in ALGS:
        n = [x for x in fins if x[0] == a]
        want = 1 if a == 'md5' or a in digests else 0
        R.check('finalised once', len(n) == want or (None if proof else False), f, '%s is finalised %d times (%s)' % (a, len(n), what), exact=ex, path=s.path)
        for _, tot in n:
            e = term_e(s.cons, tot)
            d = esub(e, I.toe(s, media)) if e is not None else None
            if d is None:
                r = None
            elif s.cons.entails_eq(d):
                r = True
            elif proof:
                r = None        # the generalised state may contain more than what happens
            elif econst(d) and not s.cons.rows:
                r = False
            elif s.loose or not dom.eexact(d):
                r = None
            else:
                r = None
                for x in (eaddc(d, -1), eaddc(eneg(d), -1)):
                    c = s.cons.add(x)
                    if c is not None and model(s, c):
                        r = False
            R.check('each byte once', r, f, '%s is finalised after %s bytes of an input of %s (%s)' % (a, shown(tot), shown(media), what), exact=ex, path=s.path, sample='%s: %s' % (what, a))

def model(s, c):
    return not s.loose and (not c.rows or dom.model(c, ec(1)) is not None)

def shown(t):
    r = repr(t)
    return r if len(r) < 50 else 'another number of'

def finish(R, T):
    T.trouble(R, ('stream', 'ctx-order', 'ctx-alg'), 'bytes in order')
    T.trouble(R, ('oob', 'null', 'wild', 'uaf', 'double-free', 'bad-free', 'uninit', 'rowrite'), 'memory of the loop')
    R.absorb(T.I)

def states(T, digests, buffer):
    return T.start(','.join(digests) if digests else None, buffer)

def general(R, digests, sized):
    T = Run()
    b = tm.sym('buffer_size', 64, 1, SSIZE) if sized else None
    for st in states(T, digests, b):
        for s, v in T.call('process_input', ['H'], st, faults=True):
            outcome(R, T, s, v, digests, T.I.opts['media'], 'digests md5 %s, any size' % ' '.join(digests))
    for F in T.I.findings:
        F.exact = False     # the invariant may describe more than what happens
    finish(R, T)

def few(R, k, fixed, digests=tuple(a for a in ALGS if a != 'md5')):
    """the first reads, of any amount each, without generalisation"""
    T = Run(media=tm.sym('media_size', 64, 0, SSIZE), fixed=fixed)
    I = T.I
    I.general = False
    I.unroll_cap = k + 1
    I.MAXDISJ = 200
    for st in states(T, digests, tm.sym('buffer_size', 64, 1, SSIZE)):
        for s, v in T.call('process_input', ['H'], st):
            outcome(R, T, s, v, digests, I.opts['media'], 'up to %d reads' % k, proof=False)
    I.findings = [F for F in I.findings if F.kind != 'diverge']
    finish(R, T)

def small(R, n, b, digests=('sha256',)):
    T = Run(media=tm.const(n, 64), amounts=True)
    I = T.I
    I.general = False
    I.MAXDISJ = 4000
    I.unroll_cap = 2 * n + 4
    ends = 0
    for st in states(T, digests, tm.const(b, 64)):
        for s, v in T.call('process_input', ['H'], st):
            ends += 1
            outcome(R, T, s, v, digests, I.opts['media'], '%s: %d bytes, buffer of %d' % (','.join(('md5',) + digests), n, b), proof=False)
    R.check('processing ends', ends > 0 or None, T.f, 'an input of %d bytes with a buffer of %d is never finished' % (n, b))
    finish(R, T)

LARGE = [(1 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 33) + 1, (1 << 40) + 3]

def large(R, n):
    """sizes around the limits of narrower integers, in a few reads"""
    for b in sorted({32768, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 8, n - 1, n, n + 1, (n + 1) // 2}):
        T = Run(media=tm.const(n, 64), fixed=True)
        I = T.I
        I.general = False
        I.unroll_cap = 4
        for st in states(T, ('sha256',), tm.const(b, 64)):
            for s, v in T.call('process_input', ['H'], st):
                outcome(R, T, s, v, ('sha256',), I.opts['media'], '%d bytes, buffer of %d' % (n, b), proof=False)
        I.findings = [F for F in I.findings if F.kind != 'diverge']
        finish(R, T)

def shrunk(R):
    """a file with less data than its reported size is refused"""
    for n in (1, 3):
        T = Run(media=tm.const(n, 64), amounts=True, short=True)
        T.I.general = False
        T.I.unroll_cap = 2 * n + 4
        for st in states(T, (), tm.const(2, 64)):
            for s, v in T.call('process_input', ['H'], st):
                failed = s.mon.get('failed')
                if failed:
                    no = ret_is(v, -1)
                    R.check('failure reported', True if no else False if isinstance(v, tm.Term) and not v.ts else None, T.f, '%s but %r is returned' % (failed[0][0], v), exact=s.fuzzy is None, line=failed[0][1], path=s.path)
                    if no:
                        R.check('failure reported', err_value(T.I, s, T), T.f, '%s but no error is recorded' % failed[0][0], exact=s.fuzzy is None, path=s.path)
        finish(R, T)
