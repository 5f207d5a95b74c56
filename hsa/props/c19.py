"""The per-digest slots of the sum tool, decided on its IR by taking one handle through the
calls main makes: the digests of the input, their hexadecimal strings and the printed lines are
symbolic values that carry the algorithm they belong to, so a line shows which algorithm's
digest, of how many bytes, ends up under which label.  Every spelling of a type and every
combination is followed; other spellings are covered by segments of symbolic characters."""
import re
from ..sumtool import *

LEVEL = 'proof'
ASSUMPTIONS = ['the digest contexts and the hexadecimal conversion behave as C01-C05 and C22 establish', 'the string-splitting library returns the segments between separators']
MINIMUM = {'fed': 60, 'own digest under its own label': 100, 'exactly the requested digests': 100, 'spelling': 25, 'other spellings': 8, 'contexts': 20}
OPTIONAL = [a for a in ALGS if a != 'md5']

def prepare(tier):
    build.compile_all(CFG, 'tools')

def tasks(tier):
    sets = [tuple(a for i, a in enumerate(OPTIONAL) if m >> i & 1) for m in range(16)]
    t = [('digests %s' % ' '.join(s), subset, (s,)) for s in sets]
    t += [('spellings of %s' % a, spellings, (a,)) for a in ALGS]
    t += [('lists', lists, ())]
    t += [('segments of %d characters' % n, unknown, (n,)) for n in (range(1, 10) if tier == 'quick' else range(1, 17))]
    return t

def norm_label(t):
    return re.sub('[-_ ]', '', t.upper())

def labels(text):
    """algorithms named in the text"""
    t = text.upper()
    out = set()
    for m in re.finditer(r'(MD|SHA)[-_ ]?(\d+)(?!\d)', t):
        n = (m.group(1) + m.group(2)).lower()
        if n in ALGS:
            out.add(n)
    return out

def printed(R, T, s, wanted, what):
    """the printed lines against the digests wanted"""
    f, ex = T.f, s.fuzzy is None
    got, vague = [], False
    for l in lines(s.mon.get('$out', ())):
        marks = [x for _, x in l if not isinstance(x, str)]
        if not marks:
            continue
        label = ''
        for k, x in l:
            if isinstance(x, str):
                label += x
                continue
            if x[0] == '?':
                vague = True
            elif x[0] in ('undef', 'part'):
                R.check('own digest under its own label', False, f, 'the line %r shows something other than a full digest (%s)' % (label, what), exact=ex, path=s.path)
            elif x[0] == 'hex':
                a = x[1]
                own = labels(label)
                R.check('own digest under its own label', own == {a}, f, 'the digest of %s is printed under the label %r (%s)' % (a, label.strip(), what), exact=ex, path=s.path, sample='%s: %r' % (a, label.strip()))
                R.check('printed to the given stream', k == T.stream.oid, f, 'the digest of %s is not printed to the stream of the caller' % a, exact=ex, path=s.path)
                got.append(a)
            label = ''
    for a in ALGS:
        n, w = got.count(a), 1 if a in wanted else 0
        r = n == w
        if not r and vague:
            r = None
        R.check('exactly the requested digests', r, f, '%s is printed %d times instead of %d (%s)' % (a, n, w, what), exact=ex, path=s.path, sample='%s: %s printed %d times' % (what, a, n))

def fed(R, T, s, wanted, what):
    """every requested digest is that of the whole input"""
    I = T.I
    if I.general:
        return
    ex = s.fuzzy is None
    n = I.toe(s, I.opts['media'])
    for a in wanted:
        for b, tot in s.mon.get('$fin', ()):
            if a == b and n is not None:
                e = term_e(s.cons, tot) if isinstance(tot, tm.Term) else None
                r = None if e is None else is_zero(s, esub(e, n))
                R.check('fed', r, T.f, 'the digest of %s is that of %s instead of %s bytes (%s)' % (a, '?' if e is None else dom.eshow(e), dom.eshow(n), what), exact=ex, path=s.path, sample='%s: %s' % (what, a))

def pipeline(R, T, sts, wanted, what, ended=True):
    """process, print, close and release"""
    I = T.I
    n = 0
    for st in sts:
        for s, v in T.call('process_input', ['H'], st):
            if not ret_is(v, 1):
                r = False if isinstance(v, tm.Term) and not v.ts else None
                R.check('requested digests are computed', r, T.f, 'processing gives %r although no step failed (%s)' % (v, what), exact=s.fuzzy is None and I.general is False, path=s.path)
                continue
            R.check('requested digests are computed', True, T.f, '')
            made = s.mon.get('$made', ())
            for a in ALGS:
                k = made.count(a + ' context')
                w = 1 if a in wanted else 0
                R.check('contexts', k == w, T.f, '%d contexts of %s are created instead of %d (%s)' % (k, a, w, what), exact=s.fuzzy is None, path=s.path, sample='%s: %s' % (what, a))
            fed(R, T, s, wanted, what)
            for s2, v2 in T.call('hash_values_fprint', ['H', T.stream], s):
                if not ret_is(v2, 1):
                    R.check('requested digests are computed', False if isinstance(v2, tm.Term) and not v2.ts else None, T.f, 'printing gives %r although no step failed (%s)' % (v2, what), exact=s2.fuzzy is None, path=s2.path)
                    continue
                printed(R, T, s2, wanted, what)
                n += 1
                if ended:
                    for s3 in T.step(T.step([s2], 'close', ['H'], 0), 'free', [T.ref]):
                        left = [o for o, l in s3.live.items() if l == 'live' and o not in T.base and I.objs[o].kind == 'heap']
                        R.check('contexts', not left, T.f, '%s is still held after the handle is released (%s)' % (', '.join(sorted({I.objs[o].name for o in left})), what), exact=s3.fuzzy is None, path=s3.path)
    return n

def done(R, T):
    T.trouble(R, ('ctx-order', 'ctx-alg'), 'contexts')
    T.trouble(R, ('oob', 'null', 'wild', 'uaf', 'double-free', 'bad-free', 'uninit', 'rowrite', 'format'), 'buffers large enough')
    R.absorb(T.I)

def small_run(**o):
    T = Run(media=tm.const(o.pop('size', 1), 64), amounts=True, **o)
    T.I.general = False
    return T

def subset(R, wanted):
    what = 'types %s' % (','.join(wanted) or 'by default')
    for o in (',',):
        T = small_run()
        pipeline(R, T, T.start(o.join(wanted) if wanted else None, tm.const(4, 64)), ('md5',) + wanted, what)
        done(R, T)
    # in the opposite order, and for inputs of any size
    if wanted:
        T = small_run(size=0)
        pipeline(R, T, T.start(','.join(wanted[::-1]), tm.const(4, 64)), ('md5',) + wanted, what + ' reversed')
        done(R, T)
    T = Run()
    pipeline(R, T, T.start(','.join(wanted) if wanted else None, tm.sym('buffer_size', 64, 1, SSIZE)), ('md5',) + wanted, what + ', any size')
    done(R, T)

def selected(R, text, wanted, rule):
    T = small_run(size=0)
    n = pipeline(R, T, T.start(text, None), tuple(wanted), 'option %r' % text, False)
    R.check(rule, n > 0 or None, T.f, 'nothing is printed for the option %r' % text, sample=text)
    done(R, T)

def spellings(R, a):
    for t in SPELL[a]:
        selected(R, t, {'md5', a}, 'spelling')
        selected(R, t + ',' + SPELL['sha1'][0], {'md5', a, 'sha1'}, 'spelling')
        selected(R, SPELL['sha512'][4] + ',' + t, {'md5', a, 'sha512'}, 'spelling')

def lists(R):
    for t, w in (('sha1,sha1', ['sha1']), ('md5,sha256,md5', ['sha256']), ('sha1,,sha512', ['sha1', 'sha512']), ('sha-256,sha384,SHA_512', ['sha256', 'sha512']),
                 ('', []), ('sha', []), ('unknown', []), ('sha224,SHA224,sha-224,sha_224', ['sha224']), ('sha512,sha256,sha224,sha1,md5', OPTIONAL),
                 ('sha,256', []), ('sha1 ', []), ('sha384', []), ('sha-384', []), ('md4', []), ('Sha1', []), ('sha-2', []), ('sha2566', []), ('sha.256', []), ('sha_1_', [])):
        selected(R, t, {'md5'} | set(w), 'lists')

def unknown(R, n):
    """one segment of any n characters"""
    cs = tuple(tm.sym('c%d' % i, 8, 1, 255) for i in range(n))
    T = small_run(size=0, parts=(cs,))
    I = T.I
    I.MAXDISJ = 400
    for st in T.start('x', None):
        if st.loose:
            continue
        for s, v in T.call('process_input', ['H'], st):
            made = [k.split()[0] for k in s.mon.get('$made', ()) if k.endswith(' context')]
            for a in OPTIONAL:
                if a not in made:
                    R.ok('other spellings')
                    continue
                w = other(s, cs, a)
                R.check('other spellings', True if w is None else (None if w == '' else False), T.f, 'the type %r selects %s' % (w, a), exact=s.fuzzy is None, path=s.path, sample='%d characters: %s' % (n, a))
    done(R, T)

def other(s, cs, a):
    """a string that takes this path and is not a spelling of the algorithm; None: there is none; '': unknown"""
    vals = []
    for c in cs:
        v = pinned(s, c)
        if v is not None:
            vals.append([v])
        else:
            vals.append([ord(x) for x in '0~zZ9'])
    if all(len(v) == 1 for v in vals):
        t = ''.join(chr(v[0]) for v in vals)
        return None if t in SPELL[a] else t
    for k in range(5):
        pick = [v[0] if len(v) == 1 else v[(k + i) % len(v)] for i, v in enumerate(vals)]
        env = dict(zip([c.ts[0][0] for c in cs], pick))
        try:
            if any(dom.evalexpr(r, dict(env)) < 0 for r in s.cons.rows if all(q in env for q, _ in r[1])):
                continue
            if any(not all(q in env or q.kind != 'sym' for q, _ in r[1]) for r in s.cons.rows):
                pass
            same_ = False
            for d in s.mon.get('$differ', ()):
                if all(dom.evalterm(x, dict(env)) == dom.evalterm(y, dict(env)) for x, y in d):
                    same_ = True
            if same_:
                continue
        except dom.NoModel:
            return ''
        t = ''.join(map(chr, pick))
        if t not in SPELL[a]:
            return t
    return ''
