"""The Python module's functions and types, decided on its IR: the tables are read from the
initialisers and from what module initialisation stores and registers; every function registered
under a name is run over symbolic arguments and must pass them, whole and in order, to the library
function of the algorithm its name says and return that function's digest, whole."""
from ..pyapi import *

LEVEL = 'proof'
ASSUMPTIONS = ['the CPython functions follow their documented contracts', 'the library functions behave as C01-C05 establish']
MINIMUM = {'registered once': 20, 'calling convention': 20, 'computes what its name says': 15, 'bytes are accepted': 15, 'argument names': 10, 'type': 15}
FUNCTIONS = ['get_version'] + [a + x for a in ALGS for x in ('_calculate', '_calculate_hmac')]
METHODS = ['update', 'finalize']

def prepare(tier):
    build.compile_all(CFG, 'py')

def tasks(tier):
    t = [('tables', tables, ()), ('version', version, ())]
    for a in ALGS:
        t += [('%s %s' % (a, op), function, (a, op)) for op in ('calculate', 'hmac')]
        t += [('%s context' % a, context, (a,))]
    return t

def registered(R, where, l, want, ended):
    R.check('registered once', ended, where, 'the table of %s has no end marker' % where.name)
    names = [n for n, _, _ in l]
    for n in want:
        k = names.count(n)
        R.check('registered once', k == 1, where, '%s is listed %d times' % (n, k), sample='%s: %s' % (where.name, n))
    for n, f, fl in l:
        if n not in want:
            continue
        if not isinstance(f, Ptr) or fl is None or scen_func(f, where) is None:
            R.check('calling convention', False if is_null_v(f) else None, where, '%s has no function' % n)
            continue
        g = scen_func(f, where)
        fl &= 15
        params = 3 if fl == VARARGS | KEYWORDS else 2 if fl in (VARARGS, NOARGS, METH_O) else None
        needs = n not in ('get_version', 'finalize')
        R.check('calling convention', params is not None and len(g.args) <= params, g, '%s takes %d parameters but is called with %s (flags %d)' % (n, len(g.args), params, fl), sample='%s: %d parameters, flags %d' % (n, len(g.args), fl))
        R.check('calling convention', not (needs and fl == NOARGS) and not (not needs and fl not in (NOARGS, VARARGS, VARARGS | KEYWORDS)), g, 'the flags %d of %s do not admit its arguments' % (fl, n))

def is_null_v(f):
    return isinstance(f, tm.Term) and not f.ts and f.c == 0

_I = [None]
def scen_func(f, where):
    g = _I[0].objs[f.oid].func
    return g if g is not None and not g.decl else None

def tables(R):
    T, ends = module_ends(False)
    I = T.I
    _I[0] = I
    good = [e for e in ends if e.ok]
    R.check('registered once', bool(good) or (None if any(e.ok is None for e in ends) else False), ends[0].f if ends else func(T.P, 'PyInit_pyhmac'), 'the module cannot be initialised')
    for e in good:
        s = e.s
        f = e.f
        d = s.mon.get('$def')
        n = T.field(s, Ptr(d), 'def', 'm_name')
        R.check('registered once', libc.cstring(I, s, n) == 'pyhmac' if isinstance(n, Ptr) else False, f, 'the module is not called pyhmac')
        m = T.field(s, Ptr(d), 'def', 'm_methods')
        if not isinstance(m, Ptr):
            R.check('registered once', False, f, 'the module has no functions')
        else:
            l, ended = T.methods(s, m)
            registered(R, f, l, FUNCTIONS, ended)
        added = s.mon.get('$added', ())
        ready = dict(s.mon.get('$ready', ()))
        for a in ALGS:
            l = [o for x, o in added if x == a + '_context']
            R.check('registered once', len(l) == 1, f, 'type %s_context is registered %d times' % (a, len(l)), sample='type %s_context' % a)
            for o in l[:1]:
                R.check('type', o in ready, f, 'type %s_context is registered before it is made ready' % a)
                new = ready.get(o)
                R.check('type', None if new is None else new != 'none', f, 'objects of %s_context cannot be created (no tp_new)' % a, sample='%s_context: created by %s' % (a, new))
                nm = T.field(s, Ptr(o), 'type', 'tp_name')
                R.check('type', (libc.cstring(I, s, nm) if isinstance(nm, Ptr) else None) == 'pyhmac.%s_context' % a, f, 'type %s_context has another name of its own' % a)
                t = slot(T, s, o, 'tp_methods')
                if t is None:
                    R.check('registered once', False, f, 'type %s_context has no methods' % a)
                    continue
                l2, ended = T.methods(s, t)
                registered(R, f, l2, METHODS, ended)
    for F in I.findings:
        if F.kind in ('oob', 'null', 'wild'):
            R.finding('registered once', F)
    R.absorb(I)

def outcome(R, T, e):
    """whether a call with nothing failing succeeds"""
    x = dict(exact=e.exact, path=e.s.path)
    if e.failed:
        return False
    R.check('bytes are accepted', e.ok, e.f, 'the call does not succeed (%s, %s)' % (e.what, e.why()), sample='%s: %s' % (e.f.name, e.what), **x)
    return bool(e.ok)

def parsing(R, T):
    n = 0
    for F in T.I.findings:
        if F.kind in ('parse', 'ctx-alg', 'oob', 'null', 'uninit'):
            R.finding('argument names' if F.kind == 'parse' else 'computes what its name says', F)
            n += 1
    if not n:
        R.ok('argument names')
    R.absorb(T.I)

def same_bytes(I, s, got, arg):
    """the library is given exactly the bytes of an argument: (verdict, message)"""
    if got is None:
        return None, 'unreadable data'
    oid, off, n = got
    i = info(I, arg)
    if oid != i['buf']:
        o = I.objs[oid]
        return (False if o.kind == 'pybuf' and not econst(o.size) else None), '%s is passed instead of the %s' % (o.name, obj_name(I, arg))
    if off != ZERO:
        return (None if not econst(off) else False), 'the %s is not passed from its start' % obj_name(I, arg)
    a, b = I.toe(s, n), I.toe(s, i['size'])
    if n is i['size']:
        return True, ''
    if a is None or b is None:
        return None, 'size of the %s' % obj_name(I, arg)
    d = esub(a, b)
    if s.cons.entails_eq(d):
        return True, ''
    if s.cons.refutes(d) or s.cons.refutes(dom.eneg(d)) or not s.loose and dom.eexact(d) and dom.model(s.cons, d):
        return False, 'another number of bytes than those of the %s is passed' % obj_name(I, arg)
    return None, 'size of the %s' % obj_name(I, arg)

def digest_object(I, s, v, seq, D):
    """the result is a bytes object of exactly the digest"""
    if not isinstance(v, Ptr) or info(I, v).get('py') != 'bytes':
        return (False if isinstance(v, Ptr) and (v.oid.startswith('@') or info(I, v).get('str')) else None), 'the result is not a bytes object'
    i = info(I, v)
    n = i['size']
    if n.ts:
        return None, 'size of the result'
    if n.c != D:
        return False, 'the result has %d bytes instead of %d' % (n.c, D)
    r = is_source(s, content(I, s, Ptr(i['buf']), ZERO, ec(D)), seq, ZERO)
    return r, 'the result is not the digest %s' % seq.name

def empty(I, s, args):
    """the data is known to have no bytes"""
    for a in args:
        if isinstance(a, Ptr) and info(I, a).get('size') is not None:
            n = I.toe(s, info(I, a)['size'])
            return n is not None and s.cons.entails_eq(n)
    return False

def expect(R, T, e, log, seq=None, D=0, args=()):
    """the calls of the library and the result"""
    I, s = T.I, e.s
    x = dict(exact=e.exact, path=s.path)
    got = s.mon.get('$lib', ())
    if not got and log[0] == 'update' and empty(I, s, args):
        # no bytes: nothing to add
        R.ok('computes what its name says')
        return
    shown_ = ', '.join('%s %s' % (g[1], g[0]) for g in got) or 'nothing'
    R.check('computes what its name says', [g[:2] for g in got] == [log], e.f, '%s computes %s instead of %s %s' % (e.f.name, shown_, log[1], log[0]), sample='%s: %s' % (e.f.name, shown_), **x)
    if [g[:2] for g in got] != [log]:
        return
    for a, g in zip(args, got[0][2:]):
        if isinstance(a, str):
            R.check('computes what its name says', g == a, e.f, '%s uses another context than the one of the object' % e.f.name, **x)
        else:
            r, m = same_bytes(I, s, g, a)
            R.check('computes what its name says', r, e.f, '%s: %s' % (e.f.name, m), **x)
    if seq is not None:
        r, m = digest_object(I, s, e.v, seq, D)
        R.check('computes what its name says', r, e.f, '%s: %s' % (e.f.name, m), **x)

def version(R):
    T, ends = version_ends()
    for e in ends:
        if outcome(R, T, e):
            i = info(T.I, e.v)
            t = e.s.mon.get('$text')
            r = bool(i.get('str')) and t is not None and t[0].startswith('library version') and t[1]
            R.check('computes what its name says', r, e.f, 'get_version does not return the whole version of the library', exact=e.exact, path=e.s.path)
    parsing(R, T)

def function(R, alg, op):
    T, ends = function_ends(alg, op, {n: 'bytes' for n in ARGS[op]})
    seq = {'calculate': HASH, 'hmac': HMAC}[op][alg]
    for e in ends:
        if outcome(R, T, e):
            expect(R, T, e, (op, alg), seq, spec.ALGS[alg].digest, [e.args[n] for n in ARGS[op]])
    parsing(R, T)

def context(R, alg):
    T = Py()
    st = T.ready()
    I = T.I
    typ = type_of(T, st, alg)
    p = T.context(st, typ, alg, None)
    fp = slot(T, st, typ, 'tp_init')
    if fp is None:
        R.check('type', False, func(T.P, 'PyInit_pyhmac'), 'objects of %s_context are not initialised' % alg)
        return
    ready = []
    for e in call_init(T, st, fp, alg, p, '%s object' % alg, faults=False):
        if outcome(R, T, e):
            expect(R, T, e, ('initialize', alg))
            ready.append(e.s)
    meth = context_methods(T, st, typ)
    for s in ready:
        h = held(I, s, p)
        if not h or len(h) != 1:
            R.check('computes what its name says', None if h is None else False, I.objs[fp.oid].func, 'the object of %s_context holds %s library contexts' % (alg, 'unknown' if h is None else len(h)))
            continue
        h = list(h)[0]
        f, fl = one_method(meth, 'update')
        for e in call_method(T, s, f, fl, 'update', alg, {'data': 'bytes'}, p, '%s update' % alg, faults=False):
            if outcome(R, T, e):
                expect(R, T, e, ('update', alg), None, 0, [h, e.args['data']])
                R.check('computes what its name says', e.v.oid == '@_Py_NoneStruct', e.f, 'update does not return None', exact=e.exact)
        f, fl = one_method(meth, 'finalize')
        for e in call_method(T, s, f, fl, 'finalize', alg, {}, p, '%s finalize' % alg, faults=False):
            if outcome(R, T, e):
                expect(R, T, e, ('finalize', alg), CTX[alg], spec.ALGS[alg].digest, [h])
        # initialised again: starts over with a new context
        for e in call_init(T, s, fp, alg, p, '%s object initialised again' % alg, faults=False):
            if outcome(R, T, e):
                h2 = held(I, e.s, p)
                R.check('computes what its name says', None if h2 is None else h2 != {h} and len(h2) == 1, e.f, 'initialising again does not start over', exact=e.exact)
    parsing(R, T)
