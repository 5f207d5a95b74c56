"""Fault-propagation and ownership over every path of the functions of the tools: each call
that may fail does so, and on every path the return value and the error argument must agree
with whether a step failed.  What a call leaves behind is judged by releasing the handle
afterwards: nothing acquired may remain, and nothing may be released twice."""
from ..sumtool import *

LEVEL = 'proof'
ASSUMPTIONS = ['an unsuccessful library call leaves its reference cleared, as the libraries document', 'only failures the program can observe through a result, and failed allocations, are considered']
MINIMUM = {'failure reported': 80, 'success means every step succeeded': 40, 'nothing leaks': 80, 'missing arguments': 25, 'no misuse of released memory': 10}
RULES = ('uaf', 'double-free', 'bad-free', 'ctx-order', 'ctx-alg')

def prepare(tier):
    build.compile_all(CFG, 'tools')

def tasks(tier):
    t = [(n, fn, ()) for n, fn in (('initialize', initialize), ('free', free), ('open and close', files), ('print', prints), ('options', options), ('types', types),
                                   ('missing arguments', missing), ('abort', aborts), ('outputs', outputs))]
    every = tuple(a for a in ALGS if a != 'md5')
    sets = [(), every] + [(a,) for a in every]
    if tier != 'quick':
        sets = [tuple(a for i, a in enumerate(every) if m >> i & 1) for m in range(16)]
    t += [('process %s' % ' '.join(s), process, (s,)) for s in sets]
    t += [('few %s %d %d' % (' '.join(d), n, k), few, (d, n, k)) for d in ((), (every[0],), every) for n in (0, 1, 2) for k in (1, 2)]
    t += [('no buffer', nobuffer, ())]
    t += [('any types %s' % ('set' if m else 'not set'), anytypes, (m,)) for m in (False, True)]
    t += [('string', strings, ()), ('size string', sizes, ())]
    t += [('create %d %d' % (u, k), creates, (u, k)) for u in (1000, 1024) for k in range(7)]
    return t

def success(name, v):
    """the documented success values"""
    if name == 'close':
        return ret_is(v, 0)
    if name == 'set_process_buffer_size':
        return (ret_is(v, 1) or ret_is(v, 0)) if isinstance(v, tm.Term) and (not v.ts or is_undef(v)) else None
    if name == 'read_buffer':
        m = ret_is(v, -1)
        return None if m is None and isinstance(v, tm.Term) and not v.exact else (not m)
    return ret_is(v, 1)

def judge(R, T, name, outs, release=True, claim=True):
    """every exit of a call; afterwards the handle is released and nothing may be left"""
    I, f = T.I, T.f
    for s, v in outs:
        ex = s.fuzzy is None and claim
        failed = s.mon.get('failed')
        ok, no = success(name, v), ret_is(v, -1)
        known = isinstance(v, tm.Term) and (not v.ts or is_undef(v))
        e = err_value(I, s, T)
        if failed:
            w = failed[0][0]
            R.check('failure reported', True if no else (False if ok or known else None), f, '%s failed but %r is returned' % (w, v), line=failed[0][1] or None, exact=ex, path=s.path, sample='%s: %s' % (f.name, w))
            if no:
                R.check('error recorded', e, f, '%s failed but no error is recorded' % w, line=failed[0][1] or None, exact=ex, path=s.path)
        else:
            R.check('success means every step succeeded', True if ok else (False if known else None), f, 'every step succeeded but %r is returned' % v, exact=ex, path=s.path, sample=f.name)
            if ok:
                R.check('no error on success', None if e is None else not e, f, 'an error is recorded although the call succeeds', exact=ex, path=s.path)
        leftovers(R, T, s, f, 'after %s' % ('%s failed' % failed[0][0] if failed else 'the call succeeded'), failed[0][1] if failed else None, ex, release)

def leftovers(R, T, s, f, cond, line, ex, release=True):
    I = T.I
    ends = [s]
    if release:
        h = T.handle(s)
        k = len(I.findings)
        ends = [x for x, _ in T.call('free', [T.ref], s.fork())] if not is_null(I, h) else [s]
        T.f = f
    for x in ends:
        left = [o for o, l in x.live.items() if l == 'live' and o not in T.base and I.objs[o].kind == 'heap' and o not in getattr(T, 'kept', ())]
        names = ', '.join(sorted({I.objs[o].name.split('@')[0] for o in left}))
        where = ', '.join(sorted({'line %s' % getattr(I.objs[o].site, 'line', '?') for o in left}))
        R.check('nothing leaks', not left, f, 'what was acquired (%s) is never released %s' % (names, cond), line=line, exact=ex and x.fuzzy is None, path=x.path + ((where,) if left else ()), sample='%s %s' % (f.name, cond))

def end(R, T):
    T.trouble(R, RULES, 'no misuse of released memory')
    T.trouble(R, ('oob', 'null', 'wild', 'uninit', 'rowrite', 'format', 'overlap', 'div'), 'memory')
    R.absorb(T.I)

def initialize(R):
    T = Run(output='always')
    outs = T.call('initialize', [T.ref], T.st, True)
    judge(R, T, 'initialize', outs)
    for s, v in outs:
        h = T.handle(s)
        set_ = isinstance(h, Ptr) and s.live.get(h.oid) == 'live'
        want = bool(ret_is(v, 1))
        R.check('reference', set_ == want, T.f, 'returns %r with the reference %s' % (v, 'set' if set_ else 'not set to a handle'), exact=s.fuzzy is None, path=s.path)
        if want:
            # a second handle over the first is refused and harms nothing
            for s2, v2 in T.call('initialize', [T.ref], s.fork(), True):
                R.check('missing arguments', ret_is(v2, -1) and err_value(T.I, s2, T) and T.handle(s2) == h and s2.live.get(h.oid) == 'live', T.f, 'a reference that is already set is not refused', exact=s2.fuzzy is None, path=s2.path)
                leftovers(R, T, s2, T.f, 'after a reference that is already set', None, s2.fuzzy is None)
    end(R, T)

def handles(T, digests=None, opened=True, processed=False):
    sts = T.start(digests, None, opened)
    if processed:
        T.I.opts['media'] = tm.const(1, 64)
        sts = T.step(sts, 'process_input', ['H'])
    return sts

EVERY = ','.join(a for a in ALGS if a != 'md5')

def free(R):
    for d, o, p in ((None, False, False), (EVERY, True, False), (EVERY, True, True), (None, True, True)):
        T = Run()
        T.I.general = False
        for st in handles(T, d, o, p):
            outs = T.call('free', [T.ref], st, True)
            judge(R, T, 'free', outs, release=False)
            for s, v in outs:
                R.check('reference', is_null(T.I, T.handle(s)), T.f, 'the reference is not cleared', exact=s.fuzzy is None, path=s.path)
                # releasing again is harmless
                for s2, v2 in T.call('free', [T.ref], s.fork()):
                    R.check('success means every step succeeded', ret_is(v2, 1), T.f, 'releasing a cleared reference gives %r' % v2, exact=s2.fuzzy is None, path=s2.path)
        end(R, T)
    # after a process that failed part of the way
    T = Run()
    for st in handles(T, EVERY):
        for s, v in T.call('process_input', ['H'], st, True):
            if ret_is(v, -1):
                outs = T.call('free', [T.ref], s, True)
                judge(R, T, 'free', outs, release=False)
    end(R, T)

def files(R):
    T = Run()
    for st in handles(T, None, False):
        outs = T.call('open_input', ['H', T.text('name', st)], st, True)
        judge(R, T, 'open_input', outs)
        for s, v in outs:
            judge(R, T, 'close', T.call('close', ['H'], s, True))
            if ret_is(v, 1):
                b = T.I.new(s, 'arg', 'buffer', ea(tm.sym('n', 64, 0, SSIZE).ts[0][0]), content=Cells({}, UNDEF))
                outs2 = T.call('read_buffer', ['H', b, tm.sym('n', 64, 0, SSIZE)], s, True)
                for s2, v2 in outs2:
                    # the end of the input is not a failure of reading
                    s2.mon['failed'] = tuple(x for x in s2.mon.get('failed', ()) if not x[0].startswith('premature')) or None
                judge(R, T, 'read_buffer', outs2)
                big = T.call('read_buffer', ['H', b, tm.sym('m', 64, SSIZE + 1, (1 << 64) - 1)], s.fork(), False)
                for s2, v2 in big:
                    R.check('missing arguments', ret_is(v2, -1) and err_value(T.I, s2, T), T.f, 'a buffer size above the maximum is not refused', exact=s2.fuzzy is None, path=s2.path)
    end(R, T)

def prints(R):
    for d in (None, EVERY):
        T = Run(output='always')
        T.I.general = False
        for st in handles(T, d, True, True):
            judge(R, T, 'hash_values_fprint', T.call('hash_values_fprint', ['H', T.stream], st, True))
        end(R, T)

def options(R):
    T = Run(buffer=tm.sym('size', 64))
    for st in handles(T, None, False):
        judge(R, T, 'set_process_buffer_size', T.call('set_process_buffer_size', ['H', T.text('1', st)], st, True))
    end(R, T)

def types(R):
    for a in ('md5', 'sha1', 'sha224,SHA256', EVERY, 'sha1,sha1', '', 'x'):
        T = Run(gaps=True)
        T.I.general = False
        for st in handles(T, None, False):
            outs = T.call('set_digest_types', ['H', T.text(a, st)], st, True)
            judge(R, T, 'set_digest_types', outs)
            # selecting more, or the same again
            for s, v in outs:
                if ret_is(v, -1) is False:
                    judge(R, T, 'set_digest_types', T.call('set_digest_types', ['H', T.text(EVERY, s)], s, True))
        end(R, T)

def anytypes(R, before):
    """any number of segments of any content"""
    T = Run(parts=None)
    T.I.opts['nosplit'] = True
    for st in handles(T, EVERY if before else None, False):
        n = tm.sym('length', 64, 1, SSIZE)
        p = T.I.new(st, 'arg', 'string', ea(n.ts[0][0]), content=Cells({}, TOP), writable=False)
        T.I.strings[p.oid] = eaddc(ea(n.ts[0][0]), -1)
        outs = T.call('set_digest_types', ['H', p], st, True)
        judge(R, T, 'set_digest_types', outs, claim=False)
    for F in T.I.findings:
        F.exact = F.exact and F.kind in RULES
    end(R, T)

def process(R, digests):
    T = Run()
    for st in handles(T, ','.join(digests) if digests else None):
        for name in ('initialize_integrity_hash',):
            outs = T.call(name, ['H'], st.fork(), True)
            judge(R, T, name, outs)
            for s, v in outs:
                if not ret_is(v, 1):
                    continue
                n = tm.sym('n', 64, 1, SSIZE)
                b = T.I.new(s, 'arg', 'data', ea(n.ts[0][0]), content=Cells({}, src(FILE)), writable=False)
                judge(R, T, 'update_integrity_hash', T.call('update_integrity_hash', ['H', b, n], s.fork(), True))
                for z in (tm.const(0, 64), tm.sym('m', 64, SSIZE + 1, (1 << 64) - 1)):
                    for s2, v2 in T.call('update_integrity_hash', ['H', b, z], s.fork()):
                        R.check('missing arguments', ret_is(v2, -1) and err_value(T.I, s2, T), T.f, 'a size of %r is not refused' % z, exact=s2.fuzzy is None, path=s2.path)
                judge(R, T, 'finalize_integrity_hash', T.call('finalize_integrity_hash', ['H'], s.fork(), True))
        judge(R, T, 'process_input', T.call('process_input', ['H'], st.fork(), True), claim=True)
    if digests:
        # every selected digest needs a context of its own
        late = T.step(handles(T), 'initialize_integrity_hash', ['H'])
        late = T.step(late, 'set_digest_types', lambda st: ['H', T.text(','.join(digests), st)])
        for st in handles(T, ','.join(digests)) + late:
            b = T.I.new(st, 'arg', 'data', 16, content=Cells({}, src(FILE)), writable=False)
            for name, args in (('update_integrity_hash', ['H', b, tm.const(16, 64)]), ('finalize_integrity_hash', ['H'])):
                for s2, v2 in T.call(name, args, st.fork()):
                    R.check('missing arguments', ret_is(v2, -1) and err_value(T.I, s2, T), T.f, 'a digest without a context is not refused', exact=s2.fuzzy is None, path=s2.path)
    end(R, T)

def few(R, digests, n, k):
    """inputs of a few bytes, where every state is exact"""
    T = Run(media=tm.const(n, 64), amounts=True)
    T.I.general = False
    for st in handles(T, ','.join(digests) if digests else None, True) if k is None else T.start(','.join(digests) if digests else None, tm.const(k, 64)):
        judge(R, T, 'process_input', T.call('process_input', ['H'], st, True))
    end(R, T)

def nobuffer(R):
    """buffer sizes the reader could not use are refused before anything is processed"""
    lay = tools().layout('sum_handle')
    if lay is None or 'process_buffer_size' not in lay[1]:
        raise AnchorError('the sum handle has no process buffer size')
    off, n, _ = lay[1]['process_buffer_size']
    for z in (tm.const(0, 64), tm.sym('m', 64, SSIZE + 1, (1 << 64) - 1)):
        T = Run()
        for st in handles(T, EVERY):
            T.I.store(st, Ptr(T.handle(st).oid, ec(off)), n, z, None)
            for s2, v2 in T.call('process_input', ['H'], st):
                R.check('missing arguments', ret_is(v2, -1) and err_value(T.I, s2, T), T.f, 'a buffer size of %r is not refused' % z, exact=s2.fuzzy is None, path=s2.path)
                leftovers(R, T, s2, T.f, 'after a buffer size was refused', None, s2.fuzzy is None)
        end(R, T)

def aborts(R):
    T = Run()
    for st in handles(T, None):
        judge(R, T, 'signal_abort', T.call('signal_abort', ['H'], st, True))
    end(R, T)

ARGS = {'initialize': ['ref'], 'free': ['ref'], 'signal_abort': ['H'], 'open_input': ['H', 'name'], 'close': ['H'], 'read_buffer': ['H', 'buffer', 'n'],
        'initialize_integrity_hash': ['H'], 'update_integrity_hash': ['H', 'buffer', 'n'], 'finalize_integrity_hash': ['H'], 'process_input': ['H'],
        'set_digest_types': ['H', 'name'], 'set_process_buffer_size': ['H', 'name'], 'hash_values_fprint': ['H', 'stream']}

def argument(T, st, k):
    I = T.I
    if k == 'ref':
        return T.ref
    if k == 'H':
        return T.handle(st)
    if k == 'name':
        return T.text('sha1', st)
    if k == 'buffer':
        return I.new(st, 'arg', 'buffer', 16, content=Cells({}, src(FILE)))
    if k == 'n':
        return tm.const(16, 64)
    if k == 'stream':
        return T.stream

def missing(R):
    for name, ks in ARGS.items():
        for i, k in enumerate(ks):
            if k == 'n':
                continue
            T = Run(output='always', media=tm.const(1, 64))
            T.I.general = False
            sts = handles(T, None, name not in ('open_input',))
            if name == 'update_integrity_hash':
                sts = T.step(sts, 'initialize_integrity_hash', ['H'])
            T.I.opts['buffer'] = tm.const(1, 64)
            for st in sts:
                before = dict(st.live)
                args = [null(T.I) if j == i else argument(T, st, q) for j, q in enumerate(ks)]
                h = T.handle(st)
                held = dict(st.live)
                mem = st.mem[h.oid].key()
                outs = T.call(name, args, st)
                what = 'a missing %s' % {'H': 'handle', 'ref': 'reference', 'name': 'string', 'buffer': 'buffer', 'stream': 'stream'}[k]
                for s, v in outs:
                    r = ret_is(v, -1)
                    if r:
                        r = err_value(T.I, s, T)
                    elif isinstance(v, tm.Term) and not v.ts:
                        r = False
                    R.check('missing arguments', r, T.f, '%s is not refused with an error' % what, exact=s.fuzzy is None, path=s.path, sample='%s: %s' % (T.f.name, what))
                    R.check('missing arguments', s.live.get(h.oid) == 'live' and s.mem[h.oid].key() == mem, T.f, '%s changes the handle' % what, exact=s.fuzzy is None, path=s.path)
                for F in T.I.findings:
                    R.finding('missing arguments', F)
                R.absorb(T.I)
            # without an error argument the result is the same
    for name, ks in ARGS.items():
        T = Run(output='always', media=tm.const(1, 64))
        T.I.general = False
        sts = handles(T, None, name not in ('open_input',))
        T.I.opts['buffer'] = tm.const(1, 64)
        for st in sts:
            for i in range(len(ks)):
                s0 = st.fork()
                f = T.f = func(T.P, 'sum_handle_' + name)
                T.clear(s0)
                T.I.opts['faults'] = True
                args = [null(T.I) if j == i and q != 'n' else argument(T, s0, q) for j, q in enumerate(ks)] + [null(T.I)]
                if name == 'initialize' and i:
                    continue
                for s, v in T.I.run(f, args, s0):
                    if ks[i] != 'n':
                        R.check('missing arguments', ret_is(v, -1), f, 'a missing argument is not refused when no error is asked for', exact=s.fuzzy is None, path=s.path)
            for F in T.I.findings:
                R.finding('missing arguments', F)
        R.absorb(T.I)

def simple(R, name, mk, contracts=None, ok=(1,), **o):
    """a function that does not work on a handle"""
    T = Run(contracts, **o)
    I = T.I
    T.f = f = func(T.P, name)
    I.opts['faults'] = True
    T.clear(T.st)
    args = mk(T, T.st) + [T.err]
    if len(args) != len(f.args):
        raise AnchorError('%s does not take %d arguments' % (name, len(args)))
    outs = I.run(f, args, T.st)
    judge(R, T, name, outs, release=False, claim=o.get('claim', True))
    end(R, T)
    # missing pointers
    for i, a in enumerate(args[:-1]):
        if not isinstance(a, Ptr):
            continue
        T2 = Run(contracts, **o)
        T2.f = f
        T2.I.opts['faults'] = False
        args2 = mk(T2, T2.st) + [T2.err]
        args2[i] = null(I)
        for s, v in T2.I.run(f, args2, T2.st):
            r = ret_is(v, -1)
            if r:
                r = err_value(T2.I, s, T2)
            elif isinstance(v, tm.Term) and not v.ts:
                r = False
            R.check('missing arguments', r, f, 'missing argument %d is not refused with an error' % (i + 1), exact=s.fuzzy is None, path=s.path, sample=f.name)
        for F in T2.I.findings:
            R.finding('missing arguments', F)
        R.absorb(T2.I)

def refused(R, name, mk, what, contracts=None):
    """arguments the function cannot serve"""
    T = Run(contracts)
    T.f = f = func(T.P, name)
    T.I.opts['faults'] = True
    T.clear(T.st)
    for s, v in T.I.run(f, mk(T, T.st) + [T.err], T.st):
        R.check('missing arguments', True if ret_is(v, -1) and err_value(T.I, s, T) else (False if ret_is(v, -1) is not None else None), f, '%s is not refused with an error' % what, exact=s.fuzzy is None, path=s.path, sample='%s: %s' % (name, what))
    end(R, T)

def real(name):
    """the function itself instead of its contract"""
    return {name: None}

def strings(R):
    def mk(T, st):
        n = tm.sym('digest_size', 64, 1, 1 << 32)
        m = tm.sym('string_size', 64, 3, 1 << 34)
        st.cons = st.cons.add(esub(ea(m.ts[0][0]), eaddc(emul(ea(n.ts[0][0]), 2), 1)))
        return [T.I.new(st, 'arg', 'digest', ea(n.ts[0][0]), content=Cells({}, src(Seq('D'))), writable=False), n,
                T.I.new(st, 'arg', 'string', ea(m.ts[0][0]), content=Cells({}, UNDEF)), m]
    simple(R, 'digest_hash_copy_to_string', mk, real('digest_hash_copy_to_string'))
    def sized(n, m):
        return lambda T, st: [T.I.new(st, 'arg', 'digest', 64, content=Cells({}, src(Seq('D'))), writable=False), n, T.I.new(st, 'arg', 'string', 256, content=Cells({}, UNDEF)), m]
    big = tm.sym('big', 64, SSIZE + 1, (1 << 64) - 1)
    for n, m, w in ((big, tm.const(256, 64), 'a digest size above the maximum'), (tm.const(16, 64), big, 'a string size above the maximum'), (tm.const(16, 64), tm.sym('small', 64, 0, 32), 'a string that is too small')):
        refused(R, 'digest_hash_copy_to_string', sized(n, m), w, real('digest_hash_copy_to_string'))
    def short(T, st):
        n = tm.sym('string_length', 64, 0, 8)
        return [T.I.new(st, 'arg', 'string', ea(n.ts[0][0]), content=Cells({}, UNDEF)), n, tm.sym('size', 64), tm.const(1024, 32)]
    refused(R, 'byte_size_string_create', short, 'a string that is too small')

def sizes(R):
    for t in ('1', '15k', '2MiB', '3GB'):
        def mk(T, st):
            q = T.I.new(st, 'arg', 'size', 8, content=Cells({0: (8, tm.const(0, 64))}, UNDEF))
            return [T.text(t, st), tm.const(len(t), 64), q]
        simple(R, 'byte_size_string_convert', mk, real('byte_size_string_convert'))

def creates(R, u, k):
    """sizes that take k divisions"""
    def mk(T, st):
        T.I.general = False
        n = tm.sym('string_length', 64, 9, SSIZE)
        return [T.I.new(st, 'arg', 'string', ea(n.ts[0][0]), content=Cells({}, UNDEF)), n, tm.sym('size', 64, u ** k if k else 0, min(u ** (k + 1) - 1, (1 << 64) - 1)), tm.const(u, 32)]
    simple(R, 'byte_size_string_create', mk)

def outputs(R):
    simple(R, 'hmactools_output_initialize', lambda T, st: [tm.const(2, 32)])
    simple(R, 'hmactools_signal_detach', lambda T, st: [])
    def mk(T, st):
        return [T.I.fnptr('hmacsum_signal_handler', func(T.P, 'hmacsum_signal_handler'), st)]
    simple(R, 'hmactools_signal_attach', mk)
