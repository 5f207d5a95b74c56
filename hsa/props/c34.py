"""What failures tell.  Every call that records an error or raises an exception is examined in
the IR of every configuration: domain and code are resolved through constants, selections and
the arguments of the callers, and the name the message begins with must be that of the function
or of one that calls it.  The entry points of the library and of the sum tool are interpreted
with every step failing and every argument refused, and the first error recorded is compared
with what happened; likewise the class and text of the exceptions of the Python module."""
from ..entry import *
from .. import libc, sumtool, pyapi, ossl
from . import c07, c15, c24

LEVEL = 'proof'
ASSUMPTIONS = ['nested calls that fail record an error of their own', 'the error library formats messages as printf does']
CONCRETE = True
MINIMUM = {'domain and code': 300, 'names the function': 500, 'first error': 500, 'refused argument': 80, 'exception class': 100, 'error text': 50}
DOMAINS = {97: ('argument', 10), 99: ('conversion', 3), 67: ('compression', 3), 69: ('encryption', 3), 73: ('input/output', 10), 105: ('input', 5), 109: ('memory', 4), 111: ('output', 2), 114: ('runtime', 16)}
A, IO, M, RT = 97, 73, 109, 114
CFGS = ['fb', 'fbr', 'ossl', 'evp', 'evpold', 'local']
# (function, index of the domain, index of the format)
SITES = {'libcerror_error_set': (1, 3), 'libcerror_system_set_error': (1, 4), 'PyErr_Format': (None, 1), 'pyhmac_error_raise': (None, 2), 'pyhmac_error_fetch': (1, 3), 'pyhmac_error_fetch_and_raise': (None, 1)}

def prepare(tier):
    for c in CFGS + (['le32', 'be64', 'evp1'] if tier != 'quick' else []):
        build.compile_all(c, 'lib')
    build.compile_all(sumtool.CFG, 'tools')
    build.compile_all(pyapi.CFG, 'py')

def tasks(tier):
    t = [('sites lib ' + c, sites, ('lib', c)) for c in CFGS] + [('sites tools', sites, ('tools', sumtool.CFG)), ('sites py', sites, ('py', pyapi.CFG))]
    t += std_tasks(causes, ['fb'] if tier == 'quick' else ['fb', 'fbr', 'le32', 'be64'])
    t += [('%s %s' % (a, c), causes, (c, a, None)) for c in (('ossl', 'evp') if tier == 'quick' else c15.CFGS) for a in ALGS]
    t += [('tools: ' + l, tool, (f, a)) for l, f, a in c24.tasks('quick') if l != 'free'] + [('tools: missing arguments of the sum handle', missing, ())]
    t += [('python: ' + l, python, (f, a)) for l, f, a in pyapi.all_tasks() if not l.startswith(('error translation', 'module', 'version'))]
    return t

# ---- sites
class Where:
    """values of an operand: constants and strings, through the callers"""
    def __init__(self, P):
        self.P = P
        self.callers = {}
        self.stored = {}
        self.taken = set()
        for f in P.functions():
            for b in f.blocks:
                for i in b.instrs:
                    if i.op == 'call' and isinstance(i.callee, ir.GRef):
                        g = P.resolve(f.module, i.callee.name)
                        if g is not None:
                            self.callers.setdefault(id(g), []).append((f, i))
                    if i.op == 'store' and isinstance(i.ops[1], ir.GRef):
                        self.stored.setdefault((id(f.module), i.ops[1].name), []).append(i)
                    for o in i.ops:
                        if isinstance(o, ir.GRef):
                            h = P.resolve(f.module, o.name)
                            if h is not None:
                                self.taken.add(id(h))
    def string(self, m, name, off=0):
        g = self.P.resolve_global(m, name)
        if g is None or g.init is None or not g.const:
            return None
        out = {}
        if isinstance(g.init, ir.Agg):
            for o, c in g.init.items:
                if not isinstance(c, ir.Const):
                    return None
                for k in range(max(1, c.w // 8)):
                    out[o + k] = c.v >> 8 * k & 255
        elif not isinstance(g.init, (ir.Null, ir.Const)):
            return None
        s, k = '', off
        while out.get(k, 0):
            s += chr(out[k])
            k += 1
        return s
    def values(self, f, v, depth=0, seen=()):
        """{(kind, value)} or None when something is not known"""
        if isinstance(v, ir.Const):
            return {('n', v.v)}
        if isinstance(v, ir.GRef):
            s = self.string(f.module, v.name, v.off)
            return None if s is None else {('s', s)}
        if isinstance(v, ir.Arg):
            cs = self.callers.get(id(f), [])
            if not f.internal or id(f) in self.taken or not cs or depth > 4:
                return None
            out = set()
            for g, i in cs:
                k = f.args.index(v)
                r = self.values(g, i.ops[k], depth + 1, seen) if k < len(i.ops) else None
                if r is None:
                    return None
                out |= r
            return out
        if not isinstance(v, ir.Instr) or v in seen:
            return None if not isinstance(v, ir.Instr) else set()
        seen = seen + (v,)
        if v.op == 'load' and isinstance(v.ops[0], ir.GRef):
            g = self.P.resolve_global(f.module, v.ops[0].name)
            if g is None or g.init is None or v.ops[0].off or not (g.const or g.internal and not self.stored.get((id(g.module), g.name))):
                return None
            init = g.init
            if isinstance(init, ir.Agg) and len(init.items) == 1:
                init = init.items[0][1]
            if isinstance(init, ir.GRef):
                s = self.string(g.module, init.name, init.off)
                return None if s is None else {('s', s)}
            return {('n', init.v)} if isinstance(init, ir.Const) else None
        if v.op in ('phi', 'select'):
            out = set()
            for o in ([o for o, _ in v.phi] if v.op == 'phi' else v.ops[1:]):
                r = self.values(f, o, depth, seen)
                if r is None:
                    return None
                out |= r
            return out
        return None
    def above(self, f):
        """the function and those that call it, directly or not"""
        out, todo = {}, [f]
        while todo:
            g = todo.pop()
            if id(g) not in out:
                out[id(g)] = g
                todo += [h for h, _ in self.callers.get(id(g), [])]
        return {g.name for g in out.values()}

def num(v):
    return v - (1 << 32) if v >= 1 << 31 else v

def sites(R, kind, cfg):
    P = program(cfg, None, kind)
    W = Where(P)
    n = 0
    for f in P.functions():
        R.functions.add(f.name)
        for b in f.blocks:
            for i in b.instrs:
                if i.op != 'call' or not isinstance(i.callee, ir.GRef) or i.callee.name not in SITES:
                    continue
                dk, fk = SITES[i.callee.name]
                if len(i.ops) <= fk:
                    continue
                n += 1
                if dk is not None:
                    domain_code(R, W, f, i, dk, cfg)
                prefix(R, W, f, i, fk, cfg)

def domain_code(R, W, f, i, k, cfg):
    d, c = W.values(f, i.ops[k]), W.values(f, i.ops[k + 1])
    at = i.line or f.line
    if d is None or c is None:
        if not isinstance(i.ops[k], ir.Arg):
            R.und('domain and code', '%s line %s' % (f.name, at))
        return
    for _, x in sorted(d):
        x = num(x)
        if x not in DOMAINS:
            R.bad('domain and code', f.file, at, f.name, 'an error is recorded in the domain %r, which does not exist [%s]' % (chr(x) if 32 < x < 127 else x, cfg))
            continue
        for _, y in sorted(c):
            if len(d) > 1 and len(c) > 1:
                R.ok('domain and code')     # chosen together
            elif not 0 <= num(y) < DOMAINS[x][1]:
                R.bad('domain and code', f.file, at, f.name, 'an error is recorded with code %d, which the %s domain does not have [%s]' % (num(y), DOMAINS[x][0], cfg))
            else:
                R.ok('domain and code', sample='%s: %s error %d' % (f.name, DOMAINS[x][0], y))

def prefix(R, W, f, i, k, cfg):
    at = i.line or f.line
    if f.vararg and W.values(f, i.ops[k]) is None:
        return
    t = W.values(f, i.ops[k])
    if t is None:
        if not isinstance(i.ops[k], ir.Arg):
            R.und('names the function', '%s line %s: format' % (f.name, at))
        return
    for _, x in sorted(t, key=str):
        if not isinstance(x, str):
            R.und('names the function', '%s line %s: format' % (f.name, at))
            continue
        if x.startswith('%s'):
            names = W.values(f, i.ops[k + 1]) if len(i.ops) > k + 1 else None
            if names is None:
                if not f.vararg:
                    R.und('names the function', '%s line %s: name' % (f.name, at))
                continue
            got = {n for _, n in names}
            rest = x[2:]
        else:
            got, rest = {x.split(':')[0].split(' ')[0].split('%')[0]}, x
        up = W.above(f)
        bad = sorted(str(g) for g in got if g not in up)
        R.check('names the function', not bad, f, 'the message of a failure begins with %r [%s]' % (bad and bad[0], cfg), line=at, sample='%s: %r' % (f.name, x))
        R.check('names the function', len(rest.strip(' :.')) > 0, f, 'the message of a failure says nothing [%s]' % cfg, line=at)

# ---- causes
MEMORY = {'allocation': (M, 1), 'memory copy': (M, 2), 'memory set': (M, 3), 'memory move': (M, 2)}

def name_of(d):
    if d is None or d[0] is None:
        return 'an error'
    return 'a %s error (%s)' % (DOMAINS.get(d[0], ('?',))[0], d[1])

def same(got, want):
    """want: (domain, code, codes or None); True, False, None"""
    if got is None or None in got:
        return None
    ok = want[1] if isinstance(want[1], tuple) else (want[1],)
    return num(got[0]) == want[0] and (want[1] is None or num(got[1]) in ok)

REASONS = (('missing', (A, 1)), ('above the maximum', (A, (4, 7))), ('too small', (A, (5, 7))), ('already set', (RT, 2)))

def causes(R, cfg, alg, names):
    libc.CAUSES = True
    back = cfg in c15.CFGS
    L = (c15.BLib if back else Lib)(cfg, alg)
    if back:
        E, names, x = Entry(L), c15.NAMES, dict(extra=ossl.contracts(), hash_hi=(1 << 32) - 1)
    else:
        E, names = entry_names(L, names)
        x = {}
    for n in names:
        if not n.endswith(':null'):
            for desc, change in c07.variants(L, n):
                I, sc, outs = E.run(n, setup=change, faults=False, **{k: w for k, w in x.items() if k == 'extra'})
                R.absorb(I)
                want = next(w for k, w in REASONS if k in desc)
                for s, v in outs:
                    if not ret_is(v, -1):
                        continue
                    failed, c = s.mon.get('failed'), s.mon.get('$cause')
                    if failed and not failed[0][0].startswith('refused: '):
                        continue
                    w = want
                    if failed:
                        w = (RT, None)      # refused by the function called, whose error comes first
                    if c is None:
                        R.und('refused argument', '%s: %s: no error of its own' % (sc.f.name, desc))
                        continue
                    R.check('refused argument', same(c[0], w), sc.f, '%s is recorded as %s [%s]' % (desc, name_of(c[0]), cfg), line=c[1], exact=s.fuzzy is None, path=s.path, sample='%s: %s: %s' % (sc.f.name, desc, name_of(c[0])))
        I, sc, outs = E.run(n, hash_lo=L.A.digest, **x)
        R.absorb(I)
        for s, v in outs:
            failed, c = s.mon.get('failed'), s.mon.get('$cause')
            if failed and c is not None and ret_is(v, -1):
                w = MEMORY.get(failed[0][0], (RT, None))
                R.check('first error', same(c[0], w), sc.f, '%s failed, but %s is recorded [%s]' % (failed[0][0], name_of(c[0]), cfg), line=c[1], exact=s.fuzzy is None, path=s.path, sample='%s: %s: %s' % (sc.f.name, failed[0][0], name_of(c[0])))

INPUT = ('opening the input', 'reading the input', 'premature end of the input', 'closing the input')
NESTED = ('creating ', 'releasing ', 'determining ') + tuple(ALGS)

def missing(R):
    libc.CAUSES = True
    for name, ks in c24.ARGS.items():
        for i, k in enumerate(ks):
            if k == 'n':
                continue
            T = c24.Run(output='always', media=tm.const(1, 64))
            T.I.general = False
            sts = c24.handles(T, None, name not in ('open_input',))
            if name == 'update_integrity_hash':
                sts = T.step(sts, 'initialize_integrity_hash', ['H'])
            T.I.opts['buffer'] = tm.const(1, 64)
            for st in sts:
                outs = T.call(name, [c24.null(T.I) if j == i else c24.argument(T, st, q) for j, q in enumerate(ks)], st)
                for s, v in outs:
                    c = s.mon.get('$cause')
                    if ret_is(v, -1) and c is not None and not s.mon.get('failed'):
                        R.check('refused argument', same(c[0], (A, 1)), T.f, 'a missing argument is recorded as %s' % name_of(c[0]), line=c[1], exact=s.fuzzy is None, path=s.path, sample='%s: argument %d missing' % (T.f.name, i))
            R.absorb(T.I)

def tool(R, fn, args):
    libc.CAUSES = True
    def judge(R, T, name, outs, release=True, claim=True):
        for s, v in outs:
            failed, c = s.mon.get('failed'), s.mon.get('$cause')
            if not failed or c is None:
                continue
            w = failed[0][0]
            want = MEMORY.get(w) or ((IO, None) if w in INPUT else (RT, None))
            r = same(c[0], want)
            if w not in MEMORY and w not in INPUT and not any(w.startswith(x) for x in NESTED):
                # a step for which more than one domain may do, but not these
                r = None if c[0][0] is None else num(c[0][0]) not in (M, A)
            R.check('first error', r, T.f, '%s failed, but %s is recorded' % (w, name_of(c[0])), line=c[1], exact=s.fuzzy is None and claim, path=s.path, sample='%s: %s: %s' % (T.f.name, w, name_of(c[0])))
        R.absorb(T.I)
    c24.judge = judge
    fn(Filter(R), *args)        # only what is judged above counts here

class Filter:
    """passes on statistics and the rules of this property only"""
    RULES = ('first error',)
    def __init__(self, R):
        self.R = R
        self.functions, self.stats = R.functions, R.stats
    def check(self, rule, *a, **k):
        return self.R.check(rule, *a, **k) if rule in self.RULES else (a[0] if a else None)
    def ok(self, rule, *a, **k):
        if rule in self.RULES:
            self.R.ok(rule, *a, **k)
    bad = und = finding = lambda self, *a, **k: None
    def absorb(self, I):
        self.R.absorb(I)

# ---- Python
def python(R, fn, args):
    T, ends = fn(*args)
    R.absorb(T.I)
    for e in ends:
        if e.exc is None or e.exc == e.pre:
            continue
        m, x = e.s.mon, dict(exact=e.exact, path=e.s.path)
        cls = m.get('$cls')
        w = '%s, %s' % (e.what, e.why())
        odd = [n for n, k in e.kinds.items() if k == 'other']
        said = {f[0] for f in e.failed} & {'formatting the message', 'printing the error'}
        if cls is None or cls == '*':
            cls = None
        if odd and not m.get('$libfail') and not e.ok:
            if cls is None or not said:
                R.check('exception class', True if cls is None else cls in ('PyExc_TypeError', 'PyExc_ValueError'), e.f, 'an argument of another type raises %s (%s)' % (short(cls), w), sample='%s: %s' % (w, short(cls)), **x)
        elif m.get('$libfail') and not said and e.op != 'new':
            R.check('exception class', None if cls is None else cls in ('PyExc_IOError', 'PyExc_OSError', 'PyExc_EnvironmentError', 'PyExc_MemoryError'), e.f, 'a failure of the library raises %s (%s)' % (short(cls), w), sample='%s: %s' % (w, short(cls)), **x)
            R.check('error text', m.get('$errtext'), e.f, 'the exception does not carry the text of the error of the library (%s)' % w, sample=w, **x)

def short(c):
    return 'an exception' if c is None else c.replace('PyExc_', '')
