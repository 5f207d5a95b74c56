"""The command line.  What each option does is decided on main, interpreted over sequences of
options whose arguments are distinct strings: which string reaches which setting, what is opened,
what is printed.  The option parser the tool brings for platforms without getopt is decided on its
IR over argument vectors of every shape, in which a character is a class: one of the characters
the option string distinguishes, or any other one of an interval."""
from ..sumtool import *
from .c21 import Main, fatal
from itertools import product

LEVEL = 'proof'
ASSUMPTIONS = ['getopt of the platform behaves as POSIX specifies', 'vectors of at most three arguments, with at most three characters after the option marker, stand for all: the parser keeps one position']
MINIMUM = {'options take effect': 40, 'usage': 5, 'parsed as getopt': 500, 'stays in the arguments': 500}
OWN = {'getopt': 'memchr', 'getopts': 'strchr'}
TYPES = {'first': 'sha256', 'second': 'sha1'}

def prepare(tier):
    build.compile_all(CFG, 'tools')
    for c in OWN:
        build.compile_all(c, 'tools')

def tasks(tier):
    t = [('options -%s%s' % (o, ' and more arguments' if more else ''), effect, (o, more)) for o in ('', 'd', 'p', 'v', 'dpv', 'vpd', 'dd', 'pp', 'vv', 'dvd') for more in (False, True)]
    t += [('asks -%s' % o, asks, (o,)) for o in ('h', 'V', '?', 'vh', 'dV', '')]
    for cfg in OWN:
        for o in ('', ':ab:', 'a', 'b:a'):
            for k in range(3 if tier == 'quick' else 4):
                t.append(('parser %s %r %d' % (cfg, o, k), parser, (cfg, o, k)))
    return t

# ---- what main makes of the options
class Line(Main):
    """the n-th use of an option has an argument of its own"""
    def __init__(self, options, more=False, source=True):
        super().__init__(options, 1, 1, False, source, False)
        I = self.I
        self.given = {'d': [], 'p': []}
        n = {'d': ['sha256', 'sha1'], 'p': ['1', '2']}
        self.left = {}
        for o in options:
            if o in n:
                self.given[o].append(self.text(n[o][len(self.given[o]) % 2]))
        I.contracts['getopt'] = self.getopt
        I.contracts['libcnotify_verbose_set'] = self.verbose
        I.contracts['libcnotify_stream_set'] = self.stream
        self.more = more
        self.letters = None
    def verbose(self, I, st, c):
        st.mon['$verbose'] = c.args[0]
        return [(st, tm.const(1, 32))]
    def stream(self, I, st, c):
        st.mon['$notify'] = c.args[0]
        return [(st, tm.const(1, 32))]
    def getopt(self, I, st, c):
        seq, i = I.opts['options'], st.mon.get('$opt', 0)
        f = libc.cstring(I, st, c.args[2])
        if f is None:
            raise AnchorError('the option string is not constant')
        self.letters = f
        if i < len(seq):
            o = seq[i]
            st.mon['$opt'] = i + 1
            I.store(st, I.optind, 4, tm.const(min(2 + i, I.argc - 1), 32), c.ins)
            j = f.find(o)
            if o == '?' or j < 0:
                return [(st, tm.const(ord('?'), 32))]
            if f[j + 1:j + 2] == ':':
                k = seq[:i].count(o)
                I.store(st, I.optarg, 8, self.given[o][k] if o in self.given else self.text('other'), c.ins)
            else:
                I.store(st, I.optarg, 8, null(I), c.ins)
            return [(st, tm.const(ord(o), 32))]
        I.store(st, I.optarg, 8, null(I), c.ins)
        n = (I.argc - 2 if self.more else I.argc - 1) if I.opts['source'] else I.argc
        I.store(st, I.optind, 4, tm.const(n, 32), c.ins)
        return [(st, tm.const(-1, 32))]
    def operand(self, s):
        I = self.I
        return I.load(s, Ptr(self.argv.oid, ec(8 * (I.argc - (2 if self.more else 1)))), 8, None)

def out(s, M, which):
    st = M.streams.get(which)
    return [x for k, x in s.mon.get('$out', ()) if st is not None and k == st.oid]

def shown(s, M, which=('stdout',)):
    """the printed text as far as it is constant"""
    return ''.join(x if isinstance(x, str) else '\0' for w in which for x in out(s, M, w))

def documented(text):
    """the option letters a text mentions"""
    import re
    return set(''.join(re.findall(r'(?<![\w-])-([A-Za-z?]+)\b', text)))

def finish(R, M):
    for F in M.I.findings:
        if F.kind in ('uaf', 'double-free', 'null', 'oob', 'wild', 'uninit', 'rowrite', 'format'):
            R.finding('options take effect', F)
    R.absorb(M.I)

def effect(R, options, more):
    M = Line(options, more)
    I, f = M.I, M.f
    for s, v in M.run():
        if fatal(s) or ret_is(v, 0) is not True:
            if isinstance(v, tm.Term) and not v.ts and not fatal(s):
                R.check('options take effect', False, f, 'the options -%s are refused (exit status %r)' % (options, v), exact=s.fuzzy is None, path=s.path)
            continue
        x = dict(exact=s.fuzzy is None, path=s.path)
        name = s.mon.get('$name')
        R.check('options take effect', name == M.operand(s) if name is not None else False, f, 'what is opened is not the argument after the options', sample='-%s: opens the operand' % options, **x)
        want = {'md5'}
        if M.given['d']:
            want.add(TYPES['first'] if len(M.given['d']) % 2 else TYPES['second'])
        from .c21 import digests
        got = [y[1] for y in digests(I, s) if y[0] == 'hex']
        R.check('options take effect', set(got) == want, f, 'with -%s the digests printed are %s instead of %s' % (options, ', '.join(got) or 'none', ', '.join(sorted(want))), **x)
        p = s.mon.get('$size from')
        if M.given['p']:
            R.check('options take effect', p == M.given['p'][-1] if p is not None else False, f, 'the buffer size is not taken from the last -p', sample='-%s: size of the last -p' % options, **x)
        else:
            R.check('options take effect', p is None, f, 'a buffer size is set without -p', **x)
        b = s.mon.get('$verbose')
        on = False if b is None else (None if not isinstance(b, tm.Term) or b.ts else b.c != 0)
        R.check('options take effect', None if on is None else on == ('v' in options), f, 'verbose output is %s %s -v' % ('on' if on else 'off', 'with' if 'v' in options else 'without'), sample='-%s: verbose %s' % (options, on), **x)
        n = s.mon.get('$notify')
        if 'v' in options and 'stderr' in M.streams:
            R.check('options take effect', n == M.streams['stderr'] if n is not None else False, f, 'verbose output does not go to the standard error', **x)
    finish(R, M)

def asks(R, options):
    M = Line(options, source='?' in options)
    I, f = M.I, M.f
    ver = build.version()
    what = next((o for o in options if o in 'hV?'), 'none')
    n = 0
    for s, v in M.run():
        if fatal(s):
            continue
        n += 1
        x = dict(exact=s.fuzzy is None, path=s.path)
        text = shown(s, M)
        both = shown(s, M, ('stdout', 'stderr'))
        if what == 'V':
            R.check('usage', ver in text, f, '-V does not print the version %s' % ver, **x)
            R.check('usage', 'opyright' in text, f, '-V does not print the copyright', **x)
        else:
            letters = set(M.letters or '') - {':'}
            got = documented(text if what == 'h' else both)
            R.check('usage', True if got == letters else (False if '\0' not in both or not got else None), f, 'the usage text %s lists the options %s instead of %s' % ({'h': 'printed for -h', '?': 'printed for an invalid option'}.get(what, 'printed without a source'), ''.join(sorted(got)) or 'none', ''.join(sorted(letters))), sample='options %s' % ''.join(sorted(got)), **x)
        r = ret_is(v, 0)
        R.check('usage', r if what in 'hV' else (None if r is None else not r), f, 'the exit status is %r' % v, **x)
    R.check('usage', n > 0 or bool(I.findings), f, 'no execution reaches an exit')
    finish(R, M)

# ---- the parser the tool brings
def find(stops):
    """memchr and strchr on a constant string"""
    def h(I, st, c):
        p, ch = c.args[:2]
        if I.check_ptr(st, p, c.ins, 'read') is None:
            return [(st, null(I))]
        s = libc.cstring(I, st, p)
        ch = tm.trunc(ch, 8)
        if s is None or stops and (not isinstance(c.args[2], tm.Term) or c.args[2].ts):
            return [(st, tm.fresh('found', I.pw, exact=False))]
        n = c.args[2].c if stops else len(s) + 1
        if n > len(s) + 1:
            I.find(st, 'oob', c.ins, 'the size passed for the string %r is %d' % (s, n))
        b = [ord(x) for x in s] + [0]
        lo, hi = tm.irange(ch)
        out = []
        for v in dict.fromkeys(b[:n]):
            if not lo <= v <= hi:
                continue
            s2 = st
            if ch.ts:
                s2 = st.fork()
                s2.cons = s2.cons.addeq(eaddc(I.toe(st, ch), -v))
                if s2.cons is None:
                    continue
            out.append((s2, Ptr(p.oid, eaddc(p.off, b.index(v)))))
            if not ch.ts:
                return out
        if ch.ts and out:
            return [(st, tm.fresh('found', I.pw, exact=False))]
        return out or [(st, null(I))]
    return h

def classes(opts):
    """the characters the option string distinguishes, and the intervals between them"""
    sp = sorted(set(map(ord, opts)) | {ord(x) for x in '-:?'})
    out, a = [], 1
    for v in sp:
        if a < v:
            out.append((a, v - 1))
        out.append((v, v))
        a = v + 1
    out.append((a, 255))
    return out

def takes(opts, c):
    """0 a flag, 1 an option with an argument, None unknown"""
    lo, hi = c
    if lo != hi or chr(lo) in ':?' or chr(lo) not in opts:
        return None
    return int(opts[opts.index(chr(lo)) + 1:][:1] == ':')

def oracle(opts, args):
    """what getopt returns: (result, argument) ..., and the index of the first operand"""
    i, out = 1, []
    while i < len(args):
        a = args[i]
        if len(a) < 2 or a[0] != (45, 45):
            return out, i
        if a[1] == (45, 45):
            return out, i + 1
        j = 1
        while True:
            t = takes(opts, a[j])
            j += 1
            if t == 1:
                if j < len(a):
                    out.append((a[j - 1][0], (i, j)))
                    i += 1
                elif i + 1 < len(args):
                    out.append((a[j - 1][0], (i + 1, 0)))
                    i += 2
                else:
                    out.append((':' if opts[:1] == ':' else '?:', None))
                    i += 1
                break
            out.append(('?' if t is None else a[j - 1][0], None))
            if j == len(a):
                i += 1
                break
    return out, i

D = (45, 45)
def vectors(opts, k):
    """argument vectors whose first argument has k characters after the marker"""
    cl = classes(opts)
    flag = [c for c in cl if takes(opts, c) == 0][:1]
    arg = [c for c in cl if takes(opts, c) == 1][:1]
    unk = [c for c in cl if c[0] != c[1]][-1:]
    few = flag + arg + unk + [(58, 58), D]
    word = ((100, 200), (1, 255))
    rests = [(), (word,), ((D,),), ((),), ((D, D),), ((D, (flag or arg)[0]), word), ((D, (arg or flag)[0]), word), ((D, (arg or flag)[0]),)]
    if k == 0:
        firsts = [(), (D,), (D, D), ((1, 44),), ((46, 255), (1, 255)), ((1, 44), D), ()]
    elif k == 1:
        firsts = [(D, a) for a in cl if a != D]
    elif k == 2:
        firsts = [(D, a, b) for a in cl if a != D for b in (cl if takes(opts, a) == 0 else few)]
        rests = rests[:2] + rests[-2:]
    else:
        firsts = [(D,) + x for x in product(few, repeat=3) if x[0] != D]
        rests = rests[:2] + rests[-2:]
    out = [(f,) + r for f in dict.fromkeys(firsts) for r in rests]
    return out + ([()] if k == 0 else [])

def describe(args):
    return ' '.join(repr(''.join(chr(a) if a == b else '.' for a, b in x)) for x in args)

class Parse:
    def __init__(self, cfg, opts):
        self.P = program(cfg, None, 'tools')
        self.f = func(self.P, 'hmactools_getopt')
        if opts == '':
            opts = option_string()
        self.opts = opts
        c = {'memchr': find(True), 'strchr': find(False)}
        self.I = I = interp_for(self.P, c, None)
        I.program_start = True
    def text(self, st, chars, name):
        cells = {}
        for i, (lo, hi) in enumerate(chars):
            if lo == hi:
                v = tm.const(lo, 8)
            else:
                v = tm.sym('%s_%d' % (name, i), 8, lo, hi)
            cells[i] = (1, v)
        cells[len(chars)] = (1, tm.const(0, 8))
        return self.I.new(st, 'arg', name, len(chars) + 1, content=Cells(cells, UNDEF), writable=False)
    def run(self, R, args):
        I, f = self.I, self.f
        st = State()
        ts = [self.text(st, x, 'argument %d' % i) for i, x in enumerate((((112, 112),),) + args)]
        av = {8 * i: (8, p) for i, p in enumerate(ts)}
        av[8 * len(ts)] = (8, tm.const(0, 64))
        argv = I.new(st, 'arg', 'argument vector', 8 * len(ts) + 8, content=Cells(av, UNDEF), writable=False)
        o = self.text(st, tuple((ord(x), ord(x)) for x in self.opts), 'options')
        want, end = oracle(self.opts, (((112, 112),),) + args)
        optind, optarg = I.glob(st, f.module, 'optind'), I.glob(st, f.module, 'optarg')
        k = describe(args)
        sts = [st]
        n = len(I.findings)
        for i in range(len(want) + 1):
            nxt = []
            for s in sts:
                for q, v in I.run(f, [tm.const(len(ts), 32), argv, o], s):
                    x = dict(exact=q.fuzzy is None, path=q.path)
                    if i == len(want):
                        R.check('parsed as getopt', same(v, -1), f, 'for %s with the options %r call %d returns %s instead of the end' % (k, self.opts, i + 1, ret(v)), **x)
                        e = I.load(q, optind, 4, None)
                        R.check('parsed as getopt', same(e, end), f, 'for %s with the options %r the first operand is %r instead of %d' % (k, self.opts, e, end), sample='%s: operands from %d' % (k, end), **x)
                        continue
                    w, a = want[i]
                    r = [same(v, ord(y) if isinstance(y, str) else y) for y in (w if isinstance(w, str) else (w,))]
                    ok = True if True in r else (None if None in r else False)
                    R.check('parsed as getopt', ok, f, 'for %s with the options %r call %d returns %s instead of %s' % (k, self.opts, i + 1, ret(v), w if isinstance(w, str) else chr(w)), **x)
                    if ok is not True:
                        continue
                    if a is not None:
                        g = I.load(q, optarg, 8, None)
                        p = Ptr(ts[a[0]].oid, ec(a[1]))
                        R.check('parsed as getopt', g == p, f, 'for %s with the options %r the argument of call %d is not the one given' % (k, self.opts, i + 1), **x)
                    nxt.append(q)
            sts = nxt
            if not sts:
                break
        bad = I.findings[n:]
        for F in bad:
            if F.kind in ('oob', 'null', 'uninit', 'wild', 'rowrite', 'uaf'):
                F.msg = '%s (for %s with the options %r)' % (F.msg, k, self.opts)
                R.finding('stays in the arguments', F)
        if not bad:
            R.ok('stays in the arguments')

def same(v, w):
    if isinstance(v, tm.Term) and not v.ts and not is_undef(v):
        return tm.sgn(v.c, v.w) == w
    return False if is_undef(v) else None

def ret(v):
    if isinstance(v, tm.Term) and not v.ts:
        c = tm.sgn(v.c, v.w)
        return repr(chr(c)) if 32 < c < 127 else str(c)
    return repr(v)

def option_string():
    """the options main accepts"""
    M = Line('h')
    M.run()
    if not M.letters:
        raise AnchorError('main does not parse options')
    return M.letters

def parser(R, cfg, opts, k):
    S = Parse(cfg, opts)
    for args in vectors(S.opts, k):
        S.run(R, args)
    R.absorb(S.I)
