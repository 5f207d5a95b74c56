"""The main program as a whole: main is interpreted from its first statement to its exit over
abstract results of every external call, for each sequence of options.  Each call may fail, and
the interrupt may arrive before or after each call once the handler is installed, which runs the
handler's own code at that point.  Judged is what the process leaves behind: its exit status,
what it wrote to the standard output and what it still holds."""
from ..sumtool import *
from ..interp import Call
from .. import interp

LEVEL = 'proof'
ASSUMPTIONS = ['files of at most a few bytes and read buffers of one or two bytes stand for all inputs in what main does (the loop over the data is the subject of C20)',
               'signals are considered between external calls; one interrupt per run', 'resetting the disposition of a signal to its default takes effect even when a failure is reported', 'getopt behaves as POSIX specifies', 'the interrupt is not considered between the decision to print and the first digest printed']
MINIMUM = {'exit status': 300, 'no digest after a failure': 100, 'no digest after an interrupt': 60, 'digests on success': 10, 'released on success': 10, 'options take effect': 10, 'reading stops after an interrupt': 60, 'interrupts are handled': 60}
INT = 2
WORK = ('libcfile_file_open', 'libcfile_file_get_size', 'libcfile_file_read_buffer', 'digest_hash_copy_to_string', 'libcfile_file_open_wide')
TOLERATED = ('setting the signal handler',)
PURE = ('strlen', 'memset', 'memcpy', 'memcmp', 'strcmp', 'strncmp', 'getopt', 'signal', 'sigaction', 'sigemptyset', 'exit', 'libcerror_error_set', 'libcerror_error_free', 'libcerror_error_backtrace_fprint')
OTHER = 'sha256'

def prepare(tier):
    build.compile_all(CFG, 'tools')

def tasks(tier):
    t = [('run -%s %d/%d %s' % (o, n, k, 'interrupted' if a else ''), whole, (o, n, k, a)) for o, n, k in
         [('', 0, 2), ('', 1, 2), ('', 2, 1), ('d', 1, 2), ('p', 2, 1), ('p', 1, 0), ('p', 1, SSIZE), ('p', 1, 1 << 63), ('p', 1, (1 << 64) - 1), ('v', 1, 2), ('dp', 1, 2), ('pdv', 1, 1)] for a in (False, True)]
    t += [('stop -%s' % o, whole, (o, 1, 2, False)) for o in ('h', 'V', '?', 'dh', 'pV', 'v?', 'hd', 'd?', 'Vh')]
    t += [('no source -%s' % o, whole, (o, 1, 2, False, False)) for o in ('', 'd', 'p', 'v')]
    if tier != 'quick':
        t += [('run -%s %d/%d %s' % (o, n, k, 'interrupted' if a else ''), whole, (o, n, k, a)) for o, n, k in [('', 3, 1), ('dd', 2, 1), ('pp', 2, 2), ('dpv', 3, 2)] for a in (False, True)]
    return t

def getopt(I, st, c):
    seq, i = I.opts['options'], st.mon.get('$opt', 0)
    argc, argv, spec_ = c.args[:3]
    f = libc.cstring(I, st, spec_)
    if f is None:
        raise AnchorError('the option string is not constant')
    if i < len(seq):
        o = seq[i]
        st.mon['$opt'] = i + 1
        I.store(st, I.optind, 4, tm.const(min(2 + i, I.argc - 1), 32), c.ins)
        j = f.find(o)
        if o == '?' or j < 0:
            return [(st, tm.const(ord('?'), 32))]
        if f[j + 1:j + 2] == ':':
            I.store(st, I.optarg, 8, I.texts[o], c.ins)
        else:
            I.store(st, I.optarg, 8, null(I), c.ins)
        return [(st, tm.const(ord(o), 32))]
    I.store(st, I.optarg, 8, null(I), c.ins)
    I.store(st, I.optind, 4, tm.const(I.argc - 1 if I.opts['source'] else I.argc, 32), c.ins)
    return [(st, tm.const(-1, 32))]

def c_signal(I, st, c):
    out = []
    n, h = c.args[:2]
    s2 = st.fork()
    if isinstance(n, tm.Term) and not n.ts and n.c == INT:
        st.mon['$handler'] = h if isinstance(h, Ptr) and I.objs[h.oid].kind == 'func' else None
        if st.mon['$handler'] is None:
            s2.mon['$handler'] = None
    if faulty(I) and libc.used(c):
        fail(s2, 'setting the signal handler', c.ins)
        out.append((s2, tm.const(-1, 64)))
    out.append((st, I.new(st, 'ext', 'previous handler', None, content=Cells({}, TOP))))
    return out

def c_sigaction(I, st, c):
    n, act = c.args[:2]
    h = None
    if isinstance(act, Ptr):
        h = I.load(st, act, I.prog.ptrsize, c.ins)
    c.args = [n, h]
    return [(s, tm.const(0, 32) if isinstance(v, Ptr) else minus1()) for s, v in c_signal(I, st, c)]

def convert(I, st, c):
    s, n, q, err = c.args[:4]
    out = []
    if faulty(I):
        out.append(failing(I, st.fork(), c, 'converting the size', err))
    st.mon['$size from'] = s
    I.store(st, q, 8, I.opts['buffer'], c.ins)
    out.append((st, one()))
    return out

def opening(I, st, c):
    st.mon['$name'] = c.args[1]
    return file_open(I, st, c)

def leave(I, st, c):
    I.exits.append((st, c.args[0] if c.name != 'abort' else tm.const(134, 32)))
    return []

def quiet(I, st, c):
    return [(st, tm.const(1, max(c.ins.ty.bits, 1)) if c.ins is not None and c.ins.ty.kind == 'int' else tm.const(0, 32))]

def initialised(I, st, c):
    return outcomes(I, st, c, c.name, c.args[-1], one())

def digests(I, st, stream=None):
    """what was printed of digests"""
    return [x for k, x in st.mon.get('$out', ()) if not isinstance(x, str) and x[0] in ('hex', 'part') and (stream is None or k == stream)]

def interrupt(I, st, ins):
    """the states after the handler ran"""
    h = st.mon.get('$handler')
    if not I.opts.get('signals') or h is None or st.mon.get('$interrupt'):
        return []
    s = st.fork()
    kept = s.mon.get('failed')
    s.mon['$interrupt'] = 'arrived'
    s.mon['$reads before'] = s.mon.get('$reads', 0)
    s.mon['$digests before'] = len(digests(I, s))
    out = []
    o = I.objs[h.oid]
    save = I.opts.get('faults')
    I.opts['faults'] = False
    try:
        for q, _ in I.invoke(s, o.name, o.func, [tm.const(INT, 32)], ins):
            if kept is None:
                q.mon.pop('failed', None)
            else:
                q.mon['failed'] = kept
            out.append(q)
    finally:
        I.opts['faults'] = save
    return out

def prints(I, st, c):
    """whether the call is one that prints a digest"""
    return c.name in ('fprintf', 'fputs', 'printf', 'puts', 'fputc', 'putc', 'fwrite')

def watched(name, h):
    def w(I, st, c):
        if name == 'libcfile_file_read_buffer':
            st.mon['$reads'] = st.mon.get('$reads', 0) + 1
            if '$asked' not in st.mon:
                st.mon['$asked'] = c.args[2]
                st.mon['$armed'] = st.mon.get('$handler') is not None
        starts = [st]
        if not prints(I, st, c) and 'interrupt' not in I.busy:
            I.busy.append('interrupt')
            try:
                starts += interrupt(I, st.fork(), c.ins)
            finally:
                I.busy.pop()
        out = []
        for s in starts:
            if s is not st and s.mon.get('$interrupt') == 'arrived' and name in WORK:
                s.mon['$interrupt'] = 'early'
            elif st.mon.get('$interrupt') == 'arrived' and name in WORK and not digests(I, st):
                s.mon['$interrupt'] = 'early'
            for q, v in h(I, s, c):
                out.append((q, v))
                if 'interrupt' not in I.busy and not q.mon.get('$interrupt'):
                    I.busy.append('interrupt')
                    try:
                        for z in interrupt(I, q, c.ins):
                            if name in WORK:
                                z.mon['$interrupt'] = 'early'
                            out.append((z, v))
                    finally:
                        I.busy.pop()
        return out
    return w

class Main:
    def __init__(self, options='', media=1, buffer=2, signals=False, source=True, faults=True):
        self.P = tools()
        self.f = func(self.P, 'main')
        c = dict(libc.BASE)
        c.update(CONTRACTS)
        c.update({'getopt': getopt, 'signal': c_signal, 'sigaction': c_sigaction, 'sigemptyset': quiet, 'byte_size_string_convert': convert, 'libcfile_file_open': opening, 'strlen': strlen,
                  'libclocale_initialize': initialised, 'libcnotify_printf': quiet, 'libcnotify_print_error_backtrace': quiet, 'libcnotify_stream_set': quiet,
                  'libcnotify_verbose_set': quiet, 'exit': leave, '_exit': leave, 'abort': leave})
        from ..tools import locale_point
        c['libclocale_locale_get_decimal_point'] = locale_point
        c = {n: h if n in PURE or n.startswith('llvm.') else watched(n, h) for n, h in c.items()}
        self.I = I = Interp(self.P, c, None)
        I.opts = {'media': tm.const(media, 64), 'amounts': True, 'buffer': tm.const(buffer, 64), 'options': options, 'signals': signals, 'source': source, 'faults': faults}
        I.fault_primitives = faults
        I.general = False
        I.stop_on_bad = True
        I.program_start = True
        I.exits, I.busy = [], []
        self.st = st = State()
        m = self.f.module
        I.argc = 3 + len(options)
        self.args = {}
        words = ['hmacsum'] + ['-' + o for o in options] + ['x', 'source']
        av = {}
        for i in range(I.argc):
            av[8 * i] = (8, self.text(words[i] if i < len(words) else 'x'))
        av[8 * I.argc] = (8, tm.const(0, 64))
        self.argv = I.new(st, 'arg', 'argv', 8 * I.argc + 8, content=Cells(av, UNDEF), writable=False)
        self.source = av[8 * (I.argc - 1)][1]
        I.texts = {'d': self.text(OTHER), 'p': self.text('2')}
        I.optind, I.optarg = I.glob(st, m, 'optind'), I.glob(st, m, 'optarg')
        st.mem[I.optind.oid] = Cells({0: (4, tm.const(1, 32))}, UNDEF)
        st.mem[I.optarg.oid] = Cells({0: (8, tm.const(0, 64))}, UNDEF)
        self.streams = {}
        for n in ('stdout', 'stderr', 'stdin'):
            if self.P.resolve_global(m, n) is not None:
                g = I.glob(st, m, n)
                self.streams[n] = p = I.new(st, 'ext', n, None, content=Cells({}, TOP))
                st.mem[g.oid] = Cells({0: (8, p)}, UNDEF)
    def text(self, s):
        cells = {i: (1, tm.const(ord(ch), 8)) for i, ch in enumerate(s)}
        cells[len(s)] = (1, tm.const(0, 8))
        return self.I.new(self.st, 'arg', 'string', len(s) + 1, content=Cells(cells, UNDEF), writable=False)
    def run(self):
        outs = self.I.run(self.f, [tm.const(self.I.argc, 32), self.argv], self.st)
        return outs + self.I.exits

def fatal(s):
    return [x for x in s.mon.get('failed') or () if x[0] not in TOLERATED]

def whole(R, options, media, buffer, signals, source=True):
    M = Main(options, media, buffer, signals, source)
    I, f = M.I, M.f
    outs = M.run()
    asked = next((o for o in options if o in 'hV?'), None)
    want = {'md5'} | ({OTHER} if 'd' in options else set())
    unusable = 'p' in options and (buffer == 0)
    for s, v in outs:
        ex = s.fuzzy is None
        st0 = ret_is(v, 0)
        bad = None
        known = isinstance(v, tm.Term) and (not v.ts or is_undef(v))
        ft = fatal(s)
        intr = s.mon.get('$interrupt')
        printed = digests(I, s)
        line = ft[0][1] if ft else None
        cond = '%s failed' % ft[0][0] if ft else ('the interrupt arrived' if intr else 'every step succeeded')
        if asked in ('h', 'V') and not ft:
            R.check('exit status', True if st0 else (False if known else None), f, 'help or version information was requested but the exit status is %r' % v, exact=ex, path=s.path)
            R.check('no digest after a failure', not printed, f, 'a digest is printed although help or version information was requested', exact=ex, path=s.path)
        elif ft or asked == '?' or not source or unusable:
            what = cond if ft else ('an option is not valid' if asked == '?' else 'no source was given' if not source else 'the buffer size cannot be used')
            R.check('exit status', False if st0 or is_undef(v) else (True if known and v.c % 256 else (False if known else None)), f, '%s but the exit status is %r' % (what, v), line=line, exact=ex, path=s.path, sample='%s: %s -> %r' % (options or 'no options', what, v))
            early = not any(x[0] in ('closing the input', 'printing', 'flushing') or x[0].startswith('releasing') for x in ft[:1])
            if early:
                R.check('no digest after a failure', not printed, f, 'a digest is printed although %s' % what, line=line, exact=ex, path=s.path)
        elif intr == 'early':
            R.check('exit status', False if st0 or is_undef(v) else (True if known and v.c % 256 else (False if known else None)), f, 'the interrupt arrived while the input was processed but the exit status is %r' % v, exact=ex, path=s.path)
        elif not intr:
            R.check('exit status', True if st0 else (False if known else None), f, 'every step succeeded but the exit status is %r' % v, exact=ex, path=s.path, sample='%s: every step succeeded' % (options or 'no options'))
        if intr:
            if intr == 'early':
                R.check('no digest after an interrupt', len(printed) <= s.mon['$digests before'], f, 'a digest is printed although the interrupt arrived while the input was processed', exact=ex, path=s.path)
            R.check('reading stops after an interrupt', s.mon.get('$reads', 0) <= s.mon['$reads before'] + 1, f, '%d more reads start after the interrupt' % (s.mon.get('$reads', 0) - s.mon['$reads before']), exact=ex, path=s.path)
        if st0 and asked not in ('h', 'V'):
            got = [x[1] for x in digests(I, s, M.streams['stdout'].oid if 'stdout' in M.streams else None) if x[0] == 'hex']
            R.check('digests on success', set(got) == want and len(got) == len(want), f, 'the exit status is success but the digests printed are %s' % (', '.join(got) or 'none'), exact=ex, path=s.path)
            left = [o for o, l in s.live.items() if l == 'live' and I.objs[o].kind == 'heap']
            R.check('released on success', not left, f, 'the exit status is success but %s is not released' % ', '.join(sorted(I.objs[o].name.split('@')[0] for o in left)), exact=ex, path=s.path)
        if s.mon.get('$name') is not None:
            R.check('options take effect', s.mon['$name'] == M.source, f, 'what is opened is not the source argument', exact=ex, path=s.path)
        if '$armed' in s.mon:
            lost = any(x[0] in TOLERATED for x in s.mon.get('failed') or ())
            R.check('interrupts are handled', bool(s.mon['$armed'] or lost), f, 'the input is read without a handler for the interrupt signal', exact=ex, path=s.path)
        if s.mon.get('$asked') is not None:
            size = min(media, buffer if 'p' in options and buffer <= SSIZE else 32768)
            R.check('options take effect', ret_is(s.mon['$asked'], size), f, 'the first read asks for %r bytes instead of %d' % (s.mon['$asked'], size), exact=ex, path=s.path)
        if s.mon.get('$size from') is not None:
            R.check('options take effect', s.mon['$size from'] == I.texts['p'], f, 'the buffer size is not taken from its option', exact=ex, path=s.path)
    ok = [1 for s, v in outs if not fatal(s) and not s.mon.get('$interrupt')]
    R.check('exit status', bool(ok) or bool(I.findings), f, 'no execution without a failure reaches an exit')
    for F in I.findings:
        if F.kind in ('uaf', 'double-free', 'bad-free', 'null', 'oob', 'wild', 'uninit', 'ctx-order', 'rowrite'):
            R.finding('memory', F)
    R.ok('memory')
    R.absorb(I)
