"""The Python module over abstract inputs: contracts of the CPython functions it calls (each may
fail; references, the interpreter lock and the pending exception are part of the state), of the
library functions behind it, and the entry points as the interpreter calls them."""
import collections
from .tools import *
from .libc import fail, size_e
from . import spec

ALGS = ['md5', 'sha1', 'sha224', 'sha256', 'sha512']
SSIZE = (1 << 63) - 1
CFG = 'fb'
HASH = {a: Seq('HASH_' + a, secret=False) for a in ALGS}
HMAC = {a: Seq('HMAC_' + a, secret=False) for a in ALGS}
CTX = {a: Seq('CTX_' + a, secret=False) for a in ALGS}
VARARGS, KEYWORDS, NOARGS, METH_O = 1, 2, 4, 8
CONTRACTS = {}

def one():
    return tm.const(1, 32)

def zero(w=32):
    return tm.const(0, w)

# ---- state
def refs(st):
    return dict(st.mon.get('$refs', ()))

def obj_name(I, p):
    return I.objs[p.oid].name.lstrip('@')

def shift_ref(I, st, p, d, ins, how=None):
    """references owned by the running call"""
    n = refs(st)
    k = n.get(p.oid, 0) + d
    if k < 0:
        I.find(st, 'ref', ins, 'a reference to %s is %s that the call does not own' % (obj_name(I, p), how or 'released'))
        k = 0
    n[p.oid] = k
    st.mon['$refs'] = tuple(sorted((a, b) for a, b in n.items() if b))
    return k

def raised(st, what, ins, cls='*'):
    st.mon['$exc'] = (what,)
    # the class of the exception (* when the interpreter chose it)
    st.mon['$cls'] = cls

def fails(I, st, c, what):
    """the failing outcome of an API call, with its exception"""
    fail(st, what, c.ins)
    raised(st, what, c.ins)
    return st

def refuses(I, st, c, what):
    """the call rejects its argument because of what the argument is: an exception, but nothing that went wrong"""
    raised(st, what, c.ins)
    return st

def faulty(I):
    return I.opts.get('faults', True)

def locked(I, st, c):
    if not st.mon.get('$gil', True):
        I.find(st, 'gil', c.ins, '%s is called without holding the interpreter lock' % c.name)

def api(name, *more, lock=True):
    def deco(f):
        def h(I, st, c):
            if lock:
                locked(I, st, c)
            return f(I, st, c)
        for n in (name,) + more:
            CONTRACTS[n] = h
        return f
    return deco

def pyobj(I, st, name, c=None, info=None, size=None, content=None, own=1):
    p = I.new(st, 'heap', name, size, content=content or Cells({}, TOP), site=c.ins if c is not None else None, info=info or {})
    if own:
        shift_ref(I, st, p, own, None)
    return p

def used_obj(I, st, p, c, what='used'):
    """an object handed to the API must be one that is still there"""
    return I.check_ptr(st, p, c.ins, what)

def info(I, p):
    i = I.objs[p.oid].info
    return i if isinstance(i, dict) else {}

def gone(I, st, p, ins):
    """the last reference is given up"""
    t = st.mem.get(p.oid)
    i = info(I, p)
    if i.get('type'):
        tp = I.load(st, Ptr(p.oid, ec(8)), 8, ins)
        if isinstance(tp, Ptr):
            de = I.load(st, Ptr(tp.oid, ec(I.opts['lay']['type']['tp_dealloc'][0])), 8, ins)
            if isinstance(de, Ptr) and I.objs[de.oid].kind == 'func':
                f = I.objs[de.oid].func
                return [s for s, v in I.invoke(st, I.objs[de.oid].name, f, [p], ins)]
        st.blur('deallocation of an object of unknown type')
        return [st]
    drop(st, p)
    if i.get('buf'):
        st.live[i['buf']] = 'released with its object'
    return [st]

def drop(st, p):
    st.live[p.oid] = 'released'

# ---- references
@api('Py_IncRef', 'Py_XINCREF', '_Py_IncRef', 'Py_INCREF', 'Py_NewRef', 'Py_XNewRef', '_Py_NewRef', '_Py_XNewRef')
def incref(I, st, c):
    p = c.args[0]
    x = c.name in ('Py_IncRef', 'Py_XINCREF', 'Py_XNewRef', '_Py_XNewRef')
    if x and need_nn(I, st, p):
        return [(st, p)]
    if used_obj(I, st, p, c) is not None:
        shift_ref(I, st, p, 1, c.ins)
    return [(st, p)]

@api('Py_DecRef', 'Py_XDECREF', '_Py_DecRef', 'Py_DECREF', '_Py_Dealloc')
def decref(I, st, c):
    p = c.args[0]
    x = c.name in ('Py_DecRef', 'Py_XDECREF')
    if x and need_nn(I, st, p):
        return [(st, None)]
    if used_obj(I, st, p, c, 'release') is None:
        return [(st, None)]
    k = shift_ref(I, st, p, -1, c.ins)
    if k == 0 and I.objs[p.oid].kind == 'heap' and p.oid not in st.mon.get('$held', ()) and p.oid not in st.mon.get('$given', ()):
        return [(s, None) for s in gone(I, st, p, c.ins)]
    return [(st, None)]

# ---- the interpreter lock and other threads
def others_run(I, st, ins, why):
    """from here on code of other threads may have run"""
    st.mon['$epoch'] = st.mon.get('$epoch', 0) + 1
    st.mon['$why'] = why

def holding(I, st):
    """the locks held: the interpreter lock and locks stored in the object by name"""
    return frozenset((['interpreter lock'] if st.mon.get('$gil', True) else []) + ['lock %s' % k for k in st.mon.get('$locks', ())])

def shared(I, st, ins, native=None, what='used'):
    """the shared object or its library context is used by the running method"""
    self_ = I.opts.get('self')
    if self_ is None or st.mon.get('$private'):
        return
    fresh = True
    if native is not None:
        h = held(I, st, self_)
        if h is not None and native.oid not in h:
            return
        ep = dict(st.mon.get('$loaded', ())).get(native.oid)
        fresh = ep is None or ep == st.mon.get('$epoch', 0)
    f = ins.block.func if ins is not None and getattr(ins, 'block', None) is not None else None
    I.opts.setdefault('accesses', []).append((holding(I, st), ins, what, fresh, st.mon.get('$why'), st.fuzzy is None, st.path))

def lock_name(I, st, p):
    """a lock is known by where the object keeps it"""
    self_ = I.opts.get('self')
    m = st.mem.get(self_.oid) if self_ is not None else None
    if isinstance(p, Ptr) and isinstance(m, Cells):
        for o, (n, v) in m.c.items():
            if isinstance(v, Ptr) and v.oid == p.oid:
                return 'at offset %d of the object' % o
    return p.oid if isinstance(p, Ptr) and I.objs[p.oid].kind == 'global' else None

@api('PyThread_allocate_lock', lock=False)
def allocate_lock(I, st, c):
    out = [(fails(I, st.fork(), c, c.name), null(I))] if faulty(I) else []
    out[:1] and out[0][0].mon.__setitem__('$exc', st.mon.get('$exc'))
    out.append((st, I.new(st, 'ext', 'lock', None, content=Cells({}, TOP), site=c.ins)))
    return out

@api('PyThread_free_lock', lock=False)
def free_lock(I, st, c):
    if used_obj(I, st, c.args[0], c) is not None:
        st.live[c.args[0].oid] = 'released'
    return [(st, None)]

@api('PyThread_acquire_lock', 'PyThread_acquire_lock_timed', lock=False)
def acquire_lock(I, st, c):
    if used_obj(I, st, c.args[0], c) is None:
        return [(st, zero())]
    n = lock_name(I, st, c.args[0])
    if n is None:
        st.blur('unknown lock')
    st.mon['$locks'] = tuple(sorted(set(st.mon.get('$locks', ())) | {str(n)}))
    return [(st, one())]

@api('PyThread_release_lock', lock=False)
def release_lock(I, st, c):
    if used_obj(I, st, c.args[0], c) is not None:
        n = lock_name(I, st, c.args[0])
        st.mon['$locks'] = tuple(x for x in st.mon.get('$locks', ()) if x != str(n))
    return [(st, None)]

class Sharing(interp.Hooks):
    """accesses of a method to its object, and of any function to writable globals"""
    def load(self, I, st, p, n, ins):
        self.read(I, st, p, ins)
        s = I.opts.get('self')
        if s is not None and isinstance(p, Ptr) and p.oid == s.oid and ins is not None:
            m = st.mem.get(s.oid)
            if isinstance(m, Cells) and econst(p.off):
                v = m.c.get(p.off[0])
                if v is not None and isinstance(v[1], Ptr) and info(I, v[1]).get('native'):
                    d = dict(st.mon.get('$loaded', ()))
                    d[v[1].oid] = st.mon.get('$epoch', 0)
                    st.mon['$loaded'] = tuple(sorted(d.items()))
            if not econst(p.off) or p.off[0] >= 16:
                shared(I, st, ins, None, 'read')
    def store(self, I, st, p, n, v, ins):
        self.written(I, st, p, ins)
    def range_write(self, I, st, p, n, ins):
        self.written(I, st, p, ins)
    def written(self, I, st, p, ins):
        if not isinstance(p, Ptr) or ins is None:
            return
        s = I.opts.get('self')
        if s is not None and p.oid == s.oid:
            shared(I, st, ins, None, 'changed')
        elif I.objs[p.oid].kind == 'global':
            if not st.mon.get('$gil', True):
                I.opts.setdefault('globals', []).append((p.oid, ins, 'is written to while other threads run', st.fuzzy is None, st.path))
            d = dict(st.mon.get('$gw', ()))
            d[p.oid] = st.mon.get('$epoch', 0)
            st.mon['$gw'] = tuple(sorted(d.items()))
    def range_read(self, I, st, p, n, ins):
        self.read(I, st, p, ins)
    def read(self, I, st, p, ins):
        d = st.mon.get('$gw')
        if d and isinstance(p, Ptr) and ins is not None:
            e = dict(d).get(p.oid)
            if e is not None and e != st.mon.get('$epoch', 0):
                I.opts.setdefault('globals', []).append((p.oid, ins, 'is written to and read again after %s' % st.mon.get('$why'), st.fuzzy is None, st.path))

@api('PyEval_SaveThread', lock=False)
def save(I, st, c):
    if not st.mon.get('$gil', True):
        I.find(st, 'gil', c.ins, 'the interpreter lock is released twice')
    st.mon['$gil'] = False
    others_run(I, st, c.ins, 'the interpreter lock is released')
    p = I.new(st, 'ext', 'thread state', None, content=Cells({}, TOP), site=c.ins)
    st.mon['$tstate'] = p.oid
    return [(st, p)]

@api('PyEval_RestoreThread', 'PyEval_AcquireThread', lock=False)
def restore(I, st, c):
    if st.mon.get('$gil', True):
        I.find(st, 'gil', c.ins, 'the interpreter lock is acquired while it is held')
    p = c.args[0]
    if isinstance(p, tm.Term) or isinstance(p, Ptr) and p.oid != st.mon.get('$tstate'):
        I.find(st, 'gil', c.ins, 'the interpreter lock is acquired for another thread state than the one released', exact=isinstance(p, Ptr) or not p.ts)
    st.mon['$gil'] = True
    return [(st, None)]

@api('PyGILState_Ensure', lock=False)
def ensure(I, st, c):
    e = st.mon.get('$ens', ())
    h = tm.sym('gil_state_%d' % len(e), 32, 0, 1)
    st.mon['$ens'] = e + ((h, st.mon.get('$gil', True)),)
    st.mon['$gil'] = True
    return [(st, h)]

@api('PyGILState_Release', lock=False)
def gil_release(I, st, c):
    e = st.mon.get('$ens', ())
    if not e:
        I.find(st, 'gil', c.ins, 'PyGILState_Release without a matching PyGILState_Ensure')
        return [(st, None)]
    h, g = e[-1]
    if isinstance(c.args[0], tm.Term) and c.args[0] is not h:
        I.find(st, 'gil', c.ins, 'PyGILState_Release with a state other than the one PyGILState_Ensure returned', exact=not c.args[0].ts)
    st.mon['$ens'] = e[:-1]
    st.mon['$gil'] = g
    return [(st, None)]

@api('PyEval_InitThreads')
def init_threads(I, st, c):
    return [(st, None)]

# ---- exceptions
def message(I, st, c, i):
    """a format string and its arguments are read"""
    f = c.args[i]
    if used_obj(I, st, f, c, 'read') is None:
        return
    t = libc.cstring(I, st, f)
    if t is None:
        return
    libc.check_format(I, st, t, c.args[i + 1:], c.ins)
    k = i + 1
    for m in libc.FMT.finditer(t):
        if m.group(5) == '%':
            continue
        k += sum(1 for g in (2, 3) if m.group(g) == '*')
        if k < len(c.args) and m.group(5) in 'sSURVA' and isinstance(c.args[k], Ptr):
            I.check_ptr(st, c.args[k], c.ins, 'read')
        k += 1

# the text of the error of the library where texts are particular ones
TRACE = 'nested: 1.\r\nouter: 2.\n'

def squeezed(s):
    return ''.join(ch for ch in s if ch.isalnum())

Given = collections.namedtuple('Given', 'name args')

def carries(I, st, c):
    """does the message contain the text of the error of the library: True, False, None"""
    r = False if c.name in ('PyErr_Format', 'PyErr_SetString', 'PyOS_snprintf', 'PyOS_vsnprintf') else None
    for a in c.args[1:]:
        if not isinstance(a, Ptr):
            continue
        if I.opts.get('text') is not None:
            # by what the text says, whatever became of its line ends
            s = libc.cstring(I, st, a)
            if s is not None and squeezed(TRACE) in squeezed(s):
                return True
            if s is None:
                r = None
            continue
        if a.oid in getattr(I, 'backtraces', ()):
            return True
        if a.oid not in getattr(I, 'messages', ()) and libc.cstring(I, st, a) is None:
            r = None
    return r

@api('PyErr_Format', 'PyErr_SetString', 'PyErr_SetObject', 'PyErr_SetNone', 'PyErr_FormatV')
def err_format(I, st, c):
    p = c.args[0]
    if need_nn(I, st, p):
        I.find(st, 'null', c.ins, '%s without an exception type' % c.name)
    elif isinstance(p, Ptr):
        used_obj(I, st, p, c, 'use')
    if c.name == 'PyErr_Format':
        message(I, st, c, 1)
    elif len(c.args) > 1 and isinstance(c.args[1], Ptr):
        I.check_ptr(st, c.args[1], c.ins, 'read')
    raised(st, c.name, c.ins, I.objs[p.oid].name if isinstance(p, Ptr) else '*')
    st.mon['$errtext'] = carries(I, st, c)
    return [(st, null(I))]

@api('PyErr_NoMemory', 'PyErr_BadArgument', 'PyErr_BadInternalCall')
def err_memory(I, st, c):
    raised(st, c.name, c.ins, {'PyErr_NoMemory': 'PyExc_MemoryError', 'PyErr_BadArgument': 'PyExc_TypeError'}.get(c.name, '*'))
    return [(st, null(I))]

@api('PyErr_Clear')
def err_clear(I, st, c):
    if st.mon.get('$exc') is not None and st.mon.get('$exc') == ('found',):
        st.mon['$lost'] = True
    st.mon['$exc'] = None
    return [(st, None)]

@api('PyErr_Occurred')
def err_occurred(I, st, c):
    return [(st, null(I) if st.mon.get('$exc') is None else exc_type(I, st))]

@api('PyErr_ExceptionMatches', 'PyErr_GivenExceptionMatches')
def err_matches(I, st, c):
    v = tm.fresh('matches', 32)
    return [(st, v)]

def exc_type(I, st):
    return I.glob(st, I.opts['module'], 'PyExc_Exception') if False else I.opts['anyexc']

@api('PyErr_Fetch', 'PyErr_GetRaisedException')
def err_fetch(I, st, c):
    if c.name == 'PyErr_GetRaisedException':
        if st.mon.get('$exc') is None:
            return [(st, null(I))]
        saved = st.mon.get('$exc')
        st.mon['$exc'] = None
        st.mon['$fetched'] = saved
        return [(st, pyobj(I, st, 'exception object', c))]
    out = []
    had = st.mon.get('$exc')
    st.mon['$exc'] = None
    st.mon['$fetched'] = had
    # an exception consists of a type and possibly a value and a traceback
    for val, tb in ((1, 1), (1, 0), (0, 0)) if had is not None else ((0, 0),):
        s = st.fork()
        t = (1 if had is not None else 0, val, tb)
        for k, (a, n) in enumerate(zip(c.args[:3], ('exception type', 'exception value', 'exception traceback'))):
            v = pyobj(I, s, n, c) if t[k] else null(I)
            I.store(s, a, 8, v, c.ins)
        out.append((s, None))
    return out

@api('PyErr_Restore', 'PyErr_SetRaisedException')
def err_restore(I, st, c):
    any_ = False
    for a in c.args[:3] if c.name == 'PyErr_Restore' else c.args[:1]:
        if not need_nn(I, st, a) and isinstance(a, Ptr):
            any_ = True
            shift_ref(I, st, a, -1, c.ins, 'given away')
            st.mon['$held'] = st.mon.get('$held', ()) + (a.oid,)
    st.mon['$exc'] = (st.mon.get('$fetched') or ('restored',)) if any_ else None
    return [(st, None)]

@api('PyErr_NormalizeException')
def err_normalize(I, st, c):
    return [(st, None)]

@api('PyErr_Print', 'PyErr_WriteUnraisable')
def err_print(I, st, c):
    st.mon['$exc'] = None
    return [(st, None)]

# ---- objects
def repr_of(I, st, c):
    """a new string object, or NULL; the argument may be NULL"""
    p = c.args[0]
    if not need_nn(I, st, p):
        used_obj(I, st, p, c)
    others_run(I, st, c.ins, 'the text of an object is asked for')
    out = [(fails(I, st.fork(), c, c.name), null(I))] if faulty(I) else []
    out.append((st, pyobj(I, st, 'string object', c, {'str': True})))
    return out
api('PyObject_Repr', 'PyObject_Str', 'PyObject_ASCII')(repr_of)

def text_object(I, st, c, name, n=None):
    """an object with a character buffer of unknown contents"""
    ln = tm.sym('%s_length' % name.replace(' ', '_'), 64, 0, 1 << 40)
    buf = I.new(st, 'pybuf', name + ' buffer', eaddc(I.toe(st, ln), 1), content=Cells({}, TOP), site=c.ins, writable=False)
    I.strings[buf.oid] = I.toe(st, ln)
    return pyobj(I, st, name, c, {'py': 'bytes', 'buf': buf.oid, 'size': ln})

@api('PyUnicode_AsUTF8String', 'PyUnicode_AsEncodedString')
def as_utf8_string(I, st, c):
    if used_obj(I, st, c.args[0], c) is None:
        return [(fails(I, st, c, c.name), null(I))]
    out = [(fails(I, st.fork(), c, c.name), null(I))] if faulty(I) else []
    out.append((st, text_object(I, st, c, 'UTF-8 string object')))
    return out

@api('PyUnicode_AsUTF8', 'PyUnicode_AsUTF8AndSize')
def as_utf8(I, st, c):
    p = c.args[0]
    if used_obj(I, st, p, c) is None:
        return [(fails(I, st, c, c.name), null(I))]
    out = [(fails(I, st.fork(), c, c.name), null(I))] if faulty(I) else []
    ln = tm.sym('utf8_length', 64, 0, 1 << 40)
    buf = I.new(st, 'pybuf', 'UTF-8 buffer', eaddc(I.toe(st, ln), 1), content=Cells({}, TOP), site=c.ins, writable=False)
    I.strings[buf.oid] = I.toe(st, ln)
    if c.name.endswith('Size') and not need_nn(I, st, c.args[1]):
        I.store(st, c.args[1], 8, ln, c.ins)
    out.append((st, buf))
    return out

@api('PyUnicode_DecodeUTF8', 'PyUnicode_FromString', 'PyUnicode_FromStringAndSize')
def decode(I, st, c):
    p = c.args[0]
    if used_obj(I, st, p, c, 'read') is None:
        return [(fails(I, st, c, c.name), null(I))]
    n = size_e(I, st, c.args[1]) if len(c.args) > 1 else None
    out = [(fails(I, st.fork(), c, c.name), null(I))] if faulty(I) else []
    whole = None
    if p.oid in I.strings:
        L = I.strings[p.oid]
        whole = True if n is None else p.off == ZERO and st.cons.entails_eq(esub(n, L))
    st.mon['$text'] = (p.oid, whole)
    out.append((st, pyobj(I, st, 'string object', c, {'str': True, 'text': p.oid})))
    return out

def kind_of(I, p):
    return info(I, p).get('kind') or ('bytes' if info(I, p).get('py') == 'bytes' else 'other')

@api('PyObject_IsInstance')
def isinstance_(I, st, c):
    p, t = c.args[:2]
    if used_obj(I, st, p, c) is None or used_obj(I, st, t, c) is None:
        return [(fails(I, st, c, c.name), minus1())]
    k = kind_of(I, p)
    name = obj_name(I, t)
    if k != 'bytes':
        others_run(I, st, c.ins, 'the class of the argument is asked for')
    if k == 'broken':
        return [(fails(I, st, c, c.name), minus1())]
    if name != 'PyBytes_Type':
        # some other class
        others_run(I, st, c.ins, 'the class of the argument is asked for')
        return [(fails(I, st.fork(), c, c.name), minus1()), (st, tm.fresh('isinstance', 32))]
    if k == 'other':
        st.mon['$refused'] = True
    return [(st, one() if k in ('bytes', 'fake') else zero())]

def bytes_check(I, st, c):
    """PyType_FastSubclass( Py_TYPE( object ), flag ): the object really is of the built-in type"""
    return [(st, tm.fresh('flag', 32))]

@api('PyBytes_Check', 'PyBytes_CheckExact')
def py_bytes_check(I, st, c):
    p = c.args[0]
    if used_obj(I, st, p, c) is None:
        return [(st, zero())]
    return [(st, one() if kind_of(I, p) == 'bytes' else zero())]

@api('PyBytes_AsString', 'PyBytes_AS_STRING')
def bytes_string(I, st, c):
    p = c.args[0]
    if used_obj(I, st, p, c) is None:
        return [(fails(I, st, c, c.name), null(I))]
    if kind_of(I, p) != 'bytes':
        if c.name == 'PyBytes_AS_STRING':
            I.find(st, 'wild', c.ins, 'the contents of %s, which is not a bytes object, are accessed' % obj_name(I, p))
        return [(fails(I, st, c, c.name), null(I))]
    return [(st, Ptr(info(I, p)['buf']))]

@api('PyBytes_Size', 'PyBytes_GET_SIZE')
def bytes_size(I, st, c):
    p = c.args[0]
    if used_obj(I, st, p, c) is None:
        return [(fails(I, st, c, c.name), minus1(64))]
    if kind_of(I, p) != 'bytes':
        if c.name == 'PyBytes_GET_SIZE':
            I.find(st, 'wild', c.ins, 'the size of %s, which is not a bytes object, is read' % obj_name(I, p))
        return [(fails(I, st, c, c.name), minus1(64))]
    return [(st, info(I, p)['size'])]

@api('PyBytes_AsStringAndSize')
def bytes_both(I, st, c):
    p, a, b = c.args[:3]
    if used_obj(I, st, p, c) is None or kind_of(I, p) != 'bytes':
        return [(fails(I, st, c, c.name), minus1())]
    out = []
    if I.isnull(st, b) is True:
        # without a size the bytes may not contain a zero byte
        out.append((refuses(I, st.fork(), c, c.name), minus1()))
    elif not need_nn(I, st, b):
        I.store(st, b, 8, info(I, p)['size'], c.ins)
    I.store(st, a, 8, Ptr(info(I, p)['buf']), c.ins)
    return out + [(st, zero())]

@api('strlen', 'strnlen', lock=False)
def py_strlen(I, st, c):
    p = c.args[0]
    if I.check_ptr(st, p, c.ins, 'read') is None:
        return [(st, tm.fresh('len', I.pw, exact=False))]
    o = I.objs[p.oid]
    if p.oid in I.strings:
        return [(st, toterm(esub(I.strings[p.oid], p.off), I.pw))]
    s = libc.cstring(I, st, p)
    if s is not None:
        return [(st, tm.const(len(s), I.pw))]
    m = st.mem.get(p.oid)
    if c.name == 'strnlen' and o.kind in ('stack', 'heap') and isinstance(m, Cells) and econst(p.off) and not c.args[1].ts and 0 < c.args[1].c <= 256:
        # bytes of a digest: the first may be zero, or none
        n = c.args[1].c
        vals = [read_cells(m, p.off[0] + k, 1, I.big)[0] for k in range(n)]
        if all(isinstance(v, tm.Term) and v.ts for v in vals) and tm.irange(vals[0])[0] == 0:
            return [(st.fork(), tm.const(0, I.pw)), (st, tm.const(n, I.pw))]
    if o.kind != 'pybuf' or p.off != ZERO or c.name != 'strlen':
        return [(st, tm.fresh('len', I.pw, exact=False))]
    # the first zero byte: any of the bytes, or the terminator
    k = '$strlen:' + p.oid
    if k not in st.mon:
        n = tm.sym('zero byte of %s' % o.name, I.pw, 0, 1 << 62)
        cs = st.cons.add(esub(eaddc(o.size, -1), I.toe(st, n)))
        if cs is None:
            return []
        st.cons = cs
        st.mon[k] = n
    return [(st, st.mon[k])]

@api('PyBytes_FromStringAndSize', 'PyBytes_FromString')
def bytes_new(I, st, c):
    p = c.args[0]
    out = [(fails(I, st.fork(), c, c.name), null(I))] if faulty(I) else []
    nul = need_nn(I, st, p)
    if len(c.args) < 2:
        return out + bytes_from_text(I, st, c, p)
    e = I.toe(st, c.args[1], True)
    if e is None or not econst(e):
        n = c.args[1]
        st.blur('bytes object of unknown size')
        out.append((st, text_object(I, st, c, 'bytes object')))
        return out
    if e[0] < 0:
        return [(fails(I, st, c, c.name), null(I))]
    if e[0] == 0:
        buf = I.new(st, 'pybuf', 'bytes object buffer', 1, content=Cells({0: (1, tm.const(0, 8))}, UNDEF), site=c.ins)
        out.append((st, pyobj(I, st, 'bytes object', c, {'py': 'bytes', 'buf': buf.oid, 'size': tm.const(0, 64)})))
        return out
    buf = I.new(st, 'pybuf', 'bytes object buffer', eaddc(e, 1), content=Cells({}, UNDEF), site=c.ins)
    if not nul:
        I.copy_range(st, buf, p, e, c.ins)
    I.store(st, Ptr(buf.oid, e), 1, tm.const(0, 8), c.ins)
    out.append((st, pyobj(I, st, 'bytes object', c, {'py': 'bytes', 'buf': buf.oid, 'size': tm.const(e[0], 64)})))
    return out

def bytes_from_text(I, st, c, p):
    """PyBytes_FromString: the bytes up to the first zero byte; the bytes of a digest may contain one anywhere, or none"""
    o = I.objs.get(p.oid) if isinstance(p, Ptr) else None
    m = st.mem.get(p.oid) if o is not None else None
    known = o is not None and p.oid not in I.strings and libc.cstring(I, st, p) is None and o.kind in ('stack', 'heap') and isinstance(m, Cells) and econst(o.size) and econst(p.off)
    if not known or st.fuzzy is not None:
        st.blur('PyBytes_FromString')
        return [(st, text_object(I, st, c, 'bytes object'))]
    vals = [read_cells(m, k, 1, I.big)[0] for k in range(p.off[0], o.size[0])]
    if not vals or not all(isinstance(v, tm.Term) and v.ts for v in vals):
        # a byte of known value: the text may end there
        st.blur('PyBytes_FromString')
        return [(st, text_object(I, st, c, 'bytes object'))]
    I.find(st, 'oob', c.ins, 'no byte of %s has to be zero: PyBytes_FromString reads beyond its end' % o.name)
    buf = I.new(st, 'pybuf', 'bytes object buffer', 1, content=Cells({0: (1, tm.const(0, 8))}, UNDEF), site=c.ins)
    return [(st, pyobj(I, st, 'bytes object', c, {'py': 'bytes', 'buf': buf.oid, 'size': tm.const(0, 64)}))]

# ---- arguments
@api('_PyArg_ParseTupleAndKeywords_SizeT', 'PyArg_ParseTupleAndKeywords', '_PyArg_ParseTuple_SizeT', 'PyArg_ParseTuple')
def parse(I, st, c):
    kw = 'Keywords' in c.name
    args, fmt = c.args[0], c.args[2 if kw else 1]
    names = c.args[3] if kw else None
    outs = list(c.args[4 if kw else 2:])
    if I.check_ptr(st, args, c.ins, 'read') is None:
        return [(fails(I, st, c, c.name), zero())]
    sig = I.opts['sig']
    t = libc.cstring(I, st, fmt)
    if t is None:
        st.blur('unknown argument format')
        return [(fails(I, st.fork(), c, c.name), zero()), (st, one())]
    t = t.split(':')[0].split(';')[0]
    units, i, optional = [], 0, False
    while i < len(t):
        u = t[i]
        i += 1
        if u == '|':
            optional = True
            continue
        if u == '$':
            continue
        while i < len(t) and t[i] in '#*!&':
            u += t[i]
            i += 1
        units.append((u, optional))
    kws = []
    if kw:
        k = 0
        while k < 16:
            p = I.load(st, Ptr(names.oid, eaddc(names.off, 8 * k)), 8, c.ins)
            if is_null(I, p):
                break
            kws.append(libc.cstring(I, st, p) if isinstance(p, Ptr) else None)
            k += 1
        if len(kws) != len(units):
            I.find(st, 'parse', c.ins, 'format %r takes %d arguments but %d keywords are listed' % (t, len(units), len(kws)))
            return [(fails(I, st, c, c.name), zero())]
        if tuple(kws) != tuple(sig):
            I.find(st, 'parse', c.ins, 'the arguments are called %s instead of %s' % (', '.join(map(str, kws)), ', '.join(sig) or 'none'))
    if len(units) != len(sig) or any(o for u, o in units):
        I.find(st, 'parse', c.ins, 'format %r does not take exactly the %d documented arguments' % (t, len(sig)))
        return [(fails(I, st, c, c.name), zero())]
    out = [(fails(I, st.fork(), c, 'argument parsing'), zero())]
    k = 0
    for (u, o), name in zip(units, kws if kw and all(x in I.opts['args'] for x in kws) else sig):
        a = I.opts['args'][name]
        need = {'O': 1, 'S': 1, 'y': 1, 'y#': 2, 'O!': 2}.get(u)
        if need is None:
            st.blur('argument format unit %s' % u)
            need = 1
        if k + need > len(outs):
            I.find(st, 'parse', c.ins, 'format %r has more units than there are variables' % t)
            return out
        isb = kind_of(I, a) == 'bytes'
        if u in ('S', 'y', 'y#', 'O!') and not isb:
            return [(fails(I, st, c, 'argument parsing'), zero())]
        if u == 'y#':
            I.store(st, outs[k], 8, Ptr(info(I, a)['buf']), c.ins)
            I.store(st, outs[k + 1], 8, info(I, a)['size'], c.ins)
        elif u == 'y':
            out.append((refuses(I, st.fork(), c, 'argument parsing'), zero()))
            I.store(st, outs[k], 8, Ptr(info(I, a)['buf']), c.ins)
        else:
            I.store(st, outs[k + need - 1], 8, a, c.ins)
        k += need
    if k < len(outs):
        I.find(st, 'parse', c.ins, 'format %r has fewer units than there are variables' % t)
    out.append((st, one()))
    return out

# ---- types and the module
@api('PyType_GenericNew')
def generic_new(I, st, c):
    st.blur('PyType_GenericNew called directly')
    return [(st, null(I))]

@api('_PyObject_New')
def object_new(I, st, c):
    t = c.args[0]
    if used_obj(I, st, t, c) is None:
        return [(fails(I, st, c, c.name), null(I))]
    out = [(fails(I, st.fork(), c, 'PyObject_New'), null(I))] if faulty(I) else []
    n = I.load(st, Ptr(t.oid, ec(I.opts['lay']['type']['tp_basicsize'][0])), 8, c.ins)
    if not isinstance(n, tm.Term) or n.ts:
        raise AnchorError('size of the objects of %s' % t.oid)
    p = pyobj(I, st, 'context object', c, {'type': t.oid}, n.c, Cells({0: (8, tm.const(1, 64)), 8: (8, t)}, UNDEF))
    out.append((st, p))
    return out

@api('PyType_Ready')
def type_ready(I, st, c):
    t = c.args[0]
    if used_obj(I, st, t, c) is None:
        return [(fails(I, st, c, c.name), minus1())]
    out = [(fails(I, st.fork(), c, c.name), minus1())] if faulty(I) else []
    lay = I.opts['lay']['type']
    v = I.load(st, Ptr(t.oid, ec(lay['tp_free'][0])), 8, c.ins)
    if is_null(I, v):
        I.store(st, Ptr(t.oid, ec(lay['tp_free'][0])), 8, I.fnptr('PyObject_Free', None), c.ins)
    v = I.load(st, Ptr(t.oid, ec(lay['tp_new'][0])), 8, c.ins)
    nm = 'none' if is_null(I, v) else I.objs[v.oid].name if isinstance(v, Ptr) else '?'
    st.mon['$ready'] = st.mon.get('$ready', ()) + ((t.oid, nm),)
    out.append((st, zero()))
    return out

@api('PyModule_Create2', 'PyModule_FromDefAndSpec2')
def module_create(I, st, c):
    if used_obj(I, st, c.args[0], c) is None:
        return [(fails(I, st, c, c.name), null(I))]
    out = [(fails(I, st.fork(), c, 'PyModule_Create'), null(I))] if faulty(I) else []
    st.mon['$def'] = c.args[0].oid
    out.append((st, pyobj(I, st, 'module object', c, {'module': True})))
    return out

@api('PyModule_AddObject', 'PyModule_AddObjectRef', 'PyModule_Add')
def module_add(I, st, c):
    m, n, o = c.args[:3]
    if used_obj(I, st, m, c) is None:
        return [(fails(I, st, c, c.name), minus1())]
    if need_nn(I, st, o):
        return [(fails(I, st, c, c.name), minus1())]
    used_obj(I, st, o, c)
    out = []
    if faulty(I):
        s2 = fails(I, st.fork(), c, c.name)
        if c.name == 'PyModule_Add':
            shift_ref(I, s2, o, -1, c.ins, 'given away')
        out.append((s2, minus1()))
    if c.name != 'PyModule_AddObjectRef':
        shift_ref(I, st, o, -1, c.ins, 'given away')
    st.mon['$given'] = st.mon.get('$given', ()) + (o.oid,)
    st.mon['$added'] = st.mon.get('$added', ()) + ((libc.cstring(I, st, n), o.oid),)
    out.append((st, zero()))
    return out

@api('PyModule_AddType')
def module_add_type(I, st, c):
    m, o = c.args[:2]
    if used_obj(I, st, m, c) is None or used_obj(I, st, o, c) is None:
        return [(fails(I, st, c, c.name), minus1())]
    out = []
    for s, v in type_ready(I, st, interp.Call('PyType_Ready', [o], c.ins, None)):
        if not ret_is(v, 0):
            out.append((s, v))
            continue
        if faulty(I):
            out.append((fails(I, s.fork(), c, c.name), minus1()))
        n = I.load(s, Ptr(o.oid, ec(I.opts['lay']['type']['tp_name'][0])), 8, c.ins)
        t = libc.cstring(I, s, n) if isinstance(n, Ptr) else None
        s.mon['$added'] = s.mon.get('$added', ()) + ((t.split('.')[-1] if t else None, o.oid),)
        out.append((s, zero()))
    return out

@api('PyObject_Free')
def object_free(I, st, c):
    p = c.args[0]
    if need_nn(I, st, p):
        return [(st, None)]
    if st.live.get(p.oid) != 'live':
        I.find(st, 'double-free', c.ins, '%s is released again after it was %s' % (obj_name(I, p), st.live.get(p.oid)))
        return [(st, None)]
    v = None
    st.live[p.oid] = 'released'
    st.mon['$freed'] = st.mon.get('$freed', ()) + (p.oid,)
    return [(st, None)]

# ---- text
TEXT = {}
def put_text(I, st, p, e, what, ins):
    """the buffer holds a text of unknown length and characters"""
    o = I.objs[p.oid]
    if not I.in_bounds(st, o, p.off, e, ins, 'write'):
        return
    if not econst(e) or e[0] <= 0:
        I.fill_range(st, p, e, None, ins)
        return
    t = I.opts.get('text')
    if t is not None:
        # a particular short text; the one of the error of the library can be told from others
        if what == 'backtrace':
            t = TRACE
        I.fill_range(st, p, e, None, ins)
        for i, ch in enumerate(t + '\0'):
            if i < e[0]:
                I.store(st, Ptr(p.oid, eaddc(p.off, i)), 1, tm.const(ord(ch), 8), ins)
        return
    seq = TEXT.setdefault(what, Seq(what.upper(), secret=False))
    m = to_segs(st.mem[p.oid], o.size)
    hi = eadd(p.off, e)
    I.seg_put(st, p.oid, m, p.off, hi, [(p.off, hi, src(seq, dom.eneg(p.off)))])
    I.recell(st, p.oid)
    I.texts = getattr(I, 'texts', set()) | {p.oid}
    ln = tm.sym(what + '_length', 64, 0, e[0] - 1)
    I.strings[p.oid] = eadd(p.off, I.toe(st, ln))

@api('PyOS_vsnprintf', 'PyOS_snprintf', lock=False)
def vsnprintf(I, st, c):
    p, n = c.args[:2]
    e = size_e(I, st, n)
    o = I.check_ptr(st, p, c.ins, 'write')
    if o is None:
        return [(st, minus1())]
    I.check_ptr(st, c.args[2], c.ins, 'read')
    out = []
    if faulty(I):
        s2 = st.fork()
        fail(s2, 'formatting the message', c.ins)
        out.append((s2, minus1()))
    told = any(isinstance(a, Ptr) and a.oid in getattr(I, 'backtraces', ()) for a in c.args[3:])
    lost = told and I.opts.get('text') is not None and carries(I, st, Given(c.name, c.args[2:])) is False
    put_text(I, st, p, e, 'backtrace' if told and not lost else 'message', c.ins)
    if told:
        I.backtraces = I.backtraces | {p.oid}
    elif c.name == 'PyOS_vsnprintf' and p.oid not in getattr(I, 'backtraces', ()):
        I.messages = getattr(I, 'messages', set()) | {p.oid}
    r = tm.sym('message_count', 32, 0, SSIZE >> 32)
    out.append((st, r))
    return out

@api('libcerror_error_backtrace_sprint', 'libcerror_error_sprint', lock=False)
def backtrace(I, st, c):
    err, p, n = c.args[:3]
    if need_nn(I, st, err) or I.check_ptr(st, err, c.ins, 'read') is None:
        return [(st, minus1())]
    e = size_e(I, st, n)
    if I.check_ptr(st, p, c.ins, 'write') is None:
        return [(st, minus1())]
    out = []
    if faulty(I):
        s2 = st.fork()
        fail(s2, 'printing the error', c.ins)
        out.append((s2, minus1()))
    put_text(I, st, p, e, 'backtrace', c.ins)
    I.backtraces = getattr(I, 'backtraces', set()) | {p.oid}
    out.append((st, tm.sym('backtrace_count', 32, 0, SSIZE >> 32)))
    return out

# ---- the library
def lib_fail(I, st, c, what, err, w=32):
    fail(st, what, c.ins)
    st.mon['$libfail'] = True
    set_error(I, st, c, err)
    return (st, minus1(w))

def ssize_fit(I, st, e):
    """whether a size is within the accepted range, partitioning on it"""
    for lim in (e, esub(ec(SSIZE), e)):
        if not st.cons.entails(lim):
            if not st.cons.refutes(lim):
                raise Split(I.alts(st, lim))
            return False
    return True

def put_digest(I, st, c, buf, n, A, seq, what, err):
    """the failing outcomes, and True when the digest was stored"""
    if need_nn(I, st, buf):
        return [lib_fail(I, st, c, 'digest buffer missing', err)], False
    e = size_e(I, st, n)
    for lim in (eaddc(e, -A.digest), esub(ec(SSIZE), e)):
        if not st.cons.entails(lim):
            if not st.cons.refutes(lim):
                raise Split(I.alts(st, lim))
            return [lib_fail(I, st, c, 'digest size out of bounds', err)], False
    out = [lib_fail(I, st.fork(), c, what, err)] if faulty(I) else []
    o = I.check_ptr(st, buf, c.ins, 'write')
    if o is None or not I.in_bounds(st, o, buf.off, e, c.ins, 'write'):
        return out, False
    I.hooks.written(I, st, buf, c.ins)
    m = to_segs(st.mem[buf.oid], o.size)
    I.seg_put(st, buf.oid, m, buf.off, eaddc(buf.off, A.digest), [(buf.off, eaddc(buf.off, A.digest), src(seq, dom.eneg(buf.off)))])
    I.recell(st, buf.oid)
    return out, True

def log(I, st, op, alg, *parts):
    st.mon['$lib'] = st.mon.get('$lib', ()) + ((op, alg) + parts,)

def given(I, st, p, n, c):
    """(buffer, offset, size) handed to the library, checked to be readable"""
    e = size_e(I, st, n)
    o = I.check_ptr(st, p, c.ins, 'read')
    if o is not None and I.in_bounds(st, o, p.off, e, c.ins, 'read'):
        I.hooks.read(I, st, p, c.ins)
        return (p.oid, p.off, n)
    return None

def library(alg):
    A = spec.ALGS[alg]
    kind = alg + ' context'
    def calculate(I, st, c):
        buf, n, h, hn, err = c.args[:5]
        if need_nn(I, st, buf) or not ssize_fit(I, st, size_e(I, st, n)):
            return [lib_fail(I, st, c, '%s calculation without data' % alg, err)]
        out, ok = put_digest(I, st, c, h, hn, A, HASH[alg], '%s calculation' % alg, err)
        if ok:
            log(I, st, 'calculate', alg, given(I, st, buf, n, c))
            out.append((st, one()))
        return out
    def hmac(I, st, c):
        key, kn, buf, n, h, hn, err = c.args[:7]
        for p, x in ((key, kn), (buf, n)):
            if need_nn(I, st, p) or not ssize_fit(I, st, size_e(I, st, x)):
                return [lib_fail(I, st, c, '%s HMAC calculation without key or data' % alg, err)]
        out, ok = put_digest(I, st, c, h, hn, A, HMAC[alg], '%s HMAC calculation' % alg, err)
        if ok:
            log(I, st, 'hmac', alg, given(I, st, key, kn, c), given(I, st, buf, n, c))
            out.append((st, one()))
        return out
    def initialize(I, st, c):
        ref, err = c.args[:2]
        v = I.load(st, ref, 8, c.ins)
        if not is_null(I, v):
            if isinstance(v, tm.Term):
                st.blur('unknown context')
            return [lib_fail(I, st, c, '%s context already set' % alg, err)]
        out = [lib_fail(I, st.fork(), c, 'creating the %s context' % alg, err)] if faulty(I) else []
        p = I.new(st, 'heap', kind, None, content=Cells({}, TOP), site=c.ins, info={'native': alg})
        I.store(st, ref, 8, p, c.ins)
        log(I, st, 'initialize', alg, p.oid)
        out.append((st, one()))
        return out
    def free_(I, st, c):
        ref, err = c.args[:2]
        v = I.load(st, ref, 8, c.ins)
        bad = st.fork() if faulty(I) else None
        if not need_nn(I, st, v):
            if not isinstance(v, Ptr):
                st.blur('release of an unknown context')
                return [(st, one())]
            shared(I, st, c.ins, v, 'released')
            if info(I, v).get('native') != alg:
                I.find(st, 'ctx-alg', c.ins, '%s is released as a %s context' % (obj_name(I, v), alg))
            for s in (st, bad):
                if s is not None:
                    libc.release(I, s, v, c.ins)
                    I.store(s, ref, 8, null(I), c.ins)
        out = [lib_fail(I, bad, c, 'releasing the %s context' % alg, err)] if bad is not None else []
        out.append((st, one()))
        return out
    def ctx(I, st, p, c):
        o = I.check_ptr(st, p, c.ins, 'use')
        if o is None:
            return False
        shared(I, st, c.ins, p, 'used by %s' % c.name)
        if info(I, p).get('native') != alg:
            I.find(st, 'ctx-alg', c.ins, '%s is passed to a %s function' % (obj_name(I, p), alg))
            return False
        return True
    def update(I, st, c):
        p, buf, n, err = c.args[:4]
        if need_nn(I, st, p) or need_nn(I, st, buf) or not ssize_fit(I, st, size_e(I, st, n)):
            return [lib_fail(I, st, c, '%s update without context or data' % alg, err)]
        out = [lib_fail(I, st.fork(), c, '%s update' % alg, err)] if faulty(I) else []
        if ctx(I, st, p, c):
            log(I, st, 'update', alg, p.oid, given(I, st, buf, n, c))
            out.append((st, one()))
        return out
    def finalize(I, st, c):
        p, h, hn, err = c.args[:4]
        if need_nn(I, st, p):
            return [lib_fail(I, st, c, '%s finalisation without context' % alg, err)]
        if not ctx(I, st, p, c):
            return []
        out, ok = put_digest(I, st, c, h, hn, A, CTX[alg], '%s finalisation' % alg, err)
        if ok:
            log(I, st, 'finalize', alg, p.oid)
            out.append((st, one()))
        return out
    for pre in ('libhmac_%s_' % alg, 'libhmac_%s_context_' % alg):
        CONTRACTS.update({pre + 'initialize': initialize, pre + 'free': free_, pre + 'update': update, pre + 'finalize': finalize})
    CONTRACTS['libhmac_%s_calculate' % alg] = calculate
    CONTRACTS['libhmac_%s_calculate_hmac' % alg] = hmac

for _a in ALGS:
    library(_a)

def get_version(I, st, c):
    p = I.new(st, 'arg', 'library version', None, content=Cells({}, TOP), writable=False)
    I.strings[p.oid] = ea(tm.sym('version_length', 64, 1, 64).ts[0][0])
    return [(st, p)]
CONTRACTS['libhmac_get_version'] = get_version

# ---- entry points
ERRORS = ('BaseException', 'Exception', 'MemoryError', 'IOError', 'OSError', 'ValueError', 'TypeError', 'RuntimeError', 'SystemError', 'NotImplementedError', 'IndexError', 'OverflowError', 'BufferError', 'KeyError')

class Py:
    """the module in the state its initialisation leaves it in"""
    def __init__(self, **opts):
        self.P = P = program(CFG, None, 'py')
        lay = {}
        for k, n in (('type', '_typeobject'), ('def', 'PyModuleDef'), ('meth', 'PyMethodDef')):
            l = P.layout(n)
            if l is None:
                raise AnchorError('structure %s not found' % n)
            lay[k] = dict(l[1])
            lay[k + ' size'] = l[0]
        self.I = I = interp_for(P, CONTRACTS, Sharing(), lay=lay, args={}, sig=(), **opts)
        I.program_start = True
        self.st = st = State()
        I.opts['anyexc'] = I.new(st, 'ext', 'exception class', None, content=Cells({}, TOP), writable=False)
        # the exception classes are objects of the interpreter
        seen = set()
        for m in P.modules:
            for n, g in m.globals.items():
                if n.startswith('PyExc_') and g.decl and n not in seen:
                    seen.add(n)
                    p = I.glob(st, m, n)
                    st.mem[p.oid] = Cells({0: (8, I.new(st, 'ext', n, None, content=Cells({}, TOP), writable=False))}, TOP)
        st.mon['$gil'] = True
        st.mon['$exc'] = None
        self.lay = lay
    def field(self, st, p, what, n, w=8):
        o, size = self.lay[what][n][:2]
        return self.I.load(st, Ptr(p.oid, eaddc(p.off, o)), size, None)
    def module_init(self, faults, st=None):
        I = self.I
        I.opts['faults'] = faults
        f = self.P.funcs.get('PyInit_pyhmac')
        if f is None:
            raise AnchorError('function PyInit_pyhmac is not defined')
        return f, I.run(f, [], st or self.st.fork())
    def ready(self):
        """a state after a successful initialisation of the module"""
        f, outs = self.module_init(False)
        good = [s for s, v in outs if isinstance(v, Ptr)]
        if not good:
            raise AnchorError('the module cannot be initialised')
        st = good[0]
        st.mon['$init'] = True
        for k in ('$refs', 'failed', '$lib', '$given', '$held', '$ens'):
            st.mon.pop(k, None)
        st.mon['$exc'] = None
        st.mon['$gil'] = True
        return st
    def methods(self, st, p, limit=64):
        """[(name, function object, flags)] of a method table"""
        out = []
        for i in range(limit):
            q = Ptr(p.oid, eaddc(p.off, i * self.lay['meth size']))
            if not self.I.in_bounds(st, self.I.objs[q.oid], q.off, ec(self.lay['meth size']), None, 'read'):
                return out, False
            n = self.field(st, q, 'meth', 'ml_name')
            if is_null(self.I, n):
                return out, True
            f = self.field(st, q, 'meth', 'ml_meth')
            fl = self.field(st, q, 'meth', 'ml_flags')
            out.append((libc.cstring(self.I, st, n) if isinstance(n, Ptr) else None, f, fl.c if isinstance(fl, tm.Term) and not fl.ts else None))
        return out, False
    def argument(self, st, name, kind):
        """an object passed by the caller: bytes, other, fake (claims to be bytes), broken (its class check raises)"""
        I = self.I
        if kind == 'bytes':
            n = tm.sym(name + '_size', 64, 0, SSIZE)
            e = I.toe(st, n)
            b = I.new(st, 'pybuf', name + ' bytes', eaddc(e, 1), content=Cells({}, TOP), writable=False)
            p = I.new(st, 'arg', name, None, content=Cells({}, TOP), info={'py': 'bytes', 'buf': b.oid, 'size': n, 'kind': 'bytes'})
            return p
        return I.new(st, 'arg', name, None, content=Cells({}, TOP), info={'kind': kind})
    def context(self, st, typ, alg, native):
        """an object of a context type: never initialised (native is None) or with a context"""
        I = self.I
        n = self.field(st, Ptr(typ), 'type', 'tp_basicsize')
        if not isinstance(n, tm.Term) or n.ts:
            raise AnchorError('size of the objects of %s' % typ)
        p = I.new(st, 'heap', '%s object' % typ.lstrip('@'), n.c, content=Cells({0: (8, tm.const(1, 64)), 8: (8, Ptr(typ))}, fill(tm.const(0, 8))), info={'type': typ})
        return p
    def invoke(self, st, fp, args):
        f = self.I.objs[fp.oid].func
        if f is None or f.decl:
            raise AnchorError('function %s is not part of the module' % self.I.objs[fp.oid].name)
        return f, self.I.run(f, args + [tm.fresh('garbage', 64, exact=False)] * (len(f.args) - len(args)), st)

ARGS = {'calculate': ('data',), 'hmac': ('key', 'data'), 'update': ('data',)}
KINDS = ('bytes', 'other', 'fake', 'broken')

def cases(op):
    """combinations of argument kinds: at most one argument is not a bytes object"""
    names = ARGS.get(op, ())
    out = [{n: 'bytes' for n in names}]
    for n in names:
        out += [dict(out[0], **{n: k}) for k in KINDS[1:]]
    return out

class End:
    """one way an entry point ends"""
    def __init__(self, T, what, op, alg, f, s, v, ret, **kw):
        self.T, self.what, self.op, self.alg, self.f, self.s, self.v, self.ret = T, what, op, alg, f, s, v, ret
        self.self_, self.kinds, self.args, self.pre = None, {}, {}, None
        self.__dict__.update(kw)
        self.exact = s.fuzzy is None
        self.failed = s.mon.get('failed', ())
        self.exc = s.mon.get('$exc')
        if ret == 'object':
            self.ok = False if is_null(T.I, v) else True if isinstance(v, Ptr) and T.I.isnull(s, v) is False else None
        elif ret == 'int':
            # the interpreter takes a negative value for a failure
            self.ok = not tm.sgn(v.c, v.w) < 0 if isinstance(v, tm.Term) and not v.ts else None
            if is_undef(v):
                self.ok = None
        else:
            self.ok = None
    def why(self):
        return 'after %s failed' % self.failed[-1][0] if self.failed else 'though nothing failed'
    def __repr__(self):
        return '%s %s: %r exc=%r failed=%r' % (self.f.name, self.what, self.v, self.exc, self.failed)

def fresh_call(st):
    for k in ('$refs', 'failed', '$lib', '$libfail', '$refused', '$given', '$held', '$text', '$freed', '$fetched', '$lost', '$loaded', '$locks', '$epoch', '$gw', '$cls', '$errtext'):
        st.mon.pop(k, None)
    st.mon['$exc'] = None
    return st

def call_method(T, st, fp, flags, op, alg, kinds, self_, what, faults=True):
    """ends of a call from Python with the arguments given"""
    I = T.I
    st = fresh_call(st.fork())
    args = {n: T.argument(st, n, k) for n, k in kinds.items()}
    I.opts.update(args=args, sig=ARGS.get(op, ()), faults=faults, self=self_)
    if self_ is None:
        self_ = I.new(st, 'ext', 'module object', None, content=Cells({}, TOP))
    tup = I.new(st, 'ext', 'argument tuple', None, content=Cells({}, TOP))
    if flags & NOARGS:
        a = [self_, tm.const(0, 64)]
    elif flags & METH_O:
        a = [self_, args[ARGS[op][0]]] if ARGS.get(op) else [self_, tup]
    elif flags & KEYWORDS:
        kw = I.new(st, 'ext', 'keyword dictionary', None, content=Cells({}, TOP))
        a = [self_, tup, kw]
    else:
        a = [self_, tup]
    f, outs = T.invoke(st, fp, a)
    return [End(T, what, op, alg, f, s, v, 'object', kinds=kinds, args=args, self_=self_) for s, v in outs]

def call_init(T, st, fp, alg, self_, what, faults=True, op='init'):
    I = T.I
    st = fresh_call(st.fork())
    I.opts.update(args={}, sig=(), faults=faults, self=self_)
    tup = I.new(st, 'ext', 'argument tuple', None, content=Cells({}, TOP))
    f, outs = T.invoke(st, fp, [self_, tup, tm.const(0, 64)])
    return [End(T, what, op, alg, f, s, v, 'int', self_=self_) for s, v in outs]

def call_dealloc(T, st, fp, alg, self_, what, faults=True, pending=False):
    I = T.I
    st = fresh_call(st.fork())
    I.opts.update(args={}, sig=(), faults=faults, self=None)
    st.mon['$exc'] = ('found',) if pending else None
    f, outs = T.invoke(st, fp, [self_])
    return [End(T, what, 'dealloc', alg, f, s, v, 'void', self_=self_, pre=('found',) if pending else None) for s, v in outs]

def natives(I, s):
    return {o for o, l in s.live.items() if l == 'live' and I.objs[o].kind == 'heap' and isinstance(I.objs[o].info, dict) and 'native' in I.objs[o].info}

def held(I, s, p):
    """library contexts an object refers to; None when unknown"""
    m = s.mem.get(p.oid)
    out = set()
    if not isinstance(m, Cells):
        return None
    for o, (n, v) in m.c.items():
        if isinstance(v, Ptr) and isinstance(I.objs[v.oid].info, dict) and 'native' in I.objs[v.oid].info:
            out.add(v.oid)
    return out

# ---- tasks shared by the checks: each yields the ends of all calls
def table(T, st):
    """the module functions: {name: [(function, flags)]}"""
    d = st.mon.get('$def')
    if d is None:
        raise AnchorError('no module definition')
    m = T.field(st, Ptr(d), 'def', 'm_methods')
    if not isinstance(m, Ptr):
        raise AnchorError('no module functions')
    l, ended = T.methods(st, m)
    out = {}
    for n, f, fl in l:
        out.setdefault(n, []).append((f, fl))
    return out, ended

def one_method(tab, name):
    l = tab.get(name)
    if not l or not isinstance(l[0][0], Ptr) or l[0][1] is None:
        raise AnchorError('function %s is not registered' % name)
    return l[0]

def slot(T, st, typ, n):
    v = T.field(st, Ptr(typ), 'type', n)
    return v if isinstance(v, Ptr) else None

def type_of(T, st, alg):
    l = [o for n, o in st.mon.get('$added', ()) if n == alg + '_context']
    if not l:
        raise AnchorError('type %s_context is not registered' % alg)
    return l[0]

def module_ends(faults=True, text=None):
    T = Py(text=text)
    f, outs = T.module_init(faults)
    return T, [End(T, 'module initialisation', 'module', None, f, s, v, 'object') for s, v in outs]

def version_ends(text=None):
    T = Py(text=text)
    st = T.ready()
    tab, _ = table(T, st)
    fp, fl = one_method(tab, 'get_version')
    return T, call_method(T, st, fp, fl, 'version', None, {}, None, 'version')

def function_ends(alg, op, kinds, text=None):
    T = Py(text=text)
    st = T.ready()
    tab, _ = table(T, st)
    fp, fl = one_method(tab, '%s_calculate%s' % (alg, '_hmac' if op == 'hmac' else ''))
    return T, call_method(T, st, fp, fl, op, alg, kinds, None, '%s, %s' % (alg, shown(kinds)))

def shown(kinds):
    odd = ['%s %s' % (n, {'other': 'not bytes', 'fake': 'only claiming to be bytes', 'broken': 'with a failing class check'}[k]) for n, k in kinds.items() if k != 'bytes']
    return ' and '.join(odd) or 'bytes arguments'

def context_methods(T, st, typ):
    p = slot(T, st, typ, 'tp_methods')
    if p is None:
        raise AnchorError('type %s has no methods' % typ)
    out = {}
    for n, f, fl in T.methods(st, p)[0]:
        out.setdefault(n, []).append((f, fl))
    return out

def object_states(T, st, typ, alg, steps=2):
    """objects after every history of initialisations up to the number of steps, with what happened to them"""
    I = T.I
    p = T.context(st, typ, alg, None)
    fp = slot(T, st, typ, 'tp_init')
    out = [('never initialised', st, p)]
    ends = []
    todo = [('never initialised', st, p)]
    for k in range(steps):
        nxt = []
        for w, s, q in todo:
            if fp is None:
                continue
            for e in call_init(T, s, fp, alg, q, '%s object, %s' % (alg, w if k else 'first initialisation')):
                ends.append(e)
                w2 = 'initialised%s' % (' again' if k else '') if e.ok else 'initialisation%s failed' % (' again' if k else '')
                nxt.append((w2, e.s, q))
        # one state per outcome and held context
        seen = {}
        for w, s, q in nxt:
            h = held(I, s, q)
            seen.setdefault((w, None if h is None else bool(h), s.fuzzy is None), (w, s, q))
        todo = list(seen.values())
        out += todo
    return out, ends

def context_ends(alg, part, text=None):
    """init: histories of initialisations; update, finalize: from every such state; dealloc likewise"""
    T = Py(text=text)
    st = T.ready()
    typ = type_of(T, st, alg)
    I = T.I
    states, ends = object_states(T, st, typ, alg)
    out = []
    if part == 'init':
        out += ends
    for w, s, p in states:
        s = s.fork()
        if part in ('update', 'finalize'):
            fp, fl = one_method(context_methods(T, s, typ), part)
            for kinds in cases(part):
                out += call_method(T, s, fp, fl, part, alg, kinds, p, '%s object %s, %s' % (alg, w, shown(kinds)))
        elif part == 'dealloc':
            fp = slot(T, s, typ, 'tp_dealloc')
            if fp is None:
                # objects of the type are never taken apart: what they hold stays behind
                f = func(T.P, 'PyInit_pyhmac')
                s.mon['$freed'] = s.mon.get('$freed', ()) + (p.oid,)
                out.append(End(T, '%s object %s (its type has no tp_dealloc)' % (alg, w), 'dealloc', alg, f, s, None, 'void', self_=p))
                continue
            for pending in (False, True):
                out += call_dealloc(T, s, fp, alg, p, '%s object %s' % (alg, w), pending=pending)
    return T, out

def new_ends(alg, text=None):
    """the C function that creates a context object"""
    T = Py(text=text)
    st = fresh_call(T.ready())
    f = T.P.funcs.get('pyhmac_%s_context_new' % alg)
    if f is None:
        return T, []
    T.I.opts.update(args={}, sig=(), faults=True)
    return T, [End(T, '%s object' % alg, 'new', alg, f, s, v, 'object') for s, v in T.I.run(f, [], st)]

def fetch_ends(text=None):
    """the function that turns a pending exception into an error of the library"""
    T = Py(text=text)
    st = fresh_call(T.ready())
    I = T.I
    f = T.P.funcs.get('pyhmac_error_fetch')
    if f is None:
        return T, []
    st.mon['$exc'] = ('found',)
    err = I.new(st, 'arg', 'error', 8, content=Cells({0: (8, tm.const(0, 64))}, UNDEF))
    fmt = I.new(st, 'arg', 'format', 3, content=Cells({0: (1, tm.const(ord('%'), 8)), 1: (1, tm.const(ord('s'), 8)), 2: (1, tm.const(0, 8))}, UNDEF), writable=False)
    msg = I.new(st, 'arg', 'message', None, content=Cells({}, TOP), writable=False)
    I.strings[msg.oid] = ea(tm.sym('text_length', 64, 0, 1 << 40).ts[0][0])
    return T, [End(T, 'error translation', 'fetch', None, f, s, v, 'void', err=err) for s, v in I.run(f, [err, tm.sym('domain', 32), tm.sym('code', 32), fmt, msg], st)]

def all_tasks():
    """every entry point in every situation, for texts of all lengths and for one particular text"""
    t = []
    for text in (None, 'a\nb'):
        w = '' if text is None else ' (short texts)'
        t += [('module' + w, module_ends, (True, text)), ('version' + w, version_ends, (text,)), ('error translation' + w, fetch_ends, (text,))]
        for a in ALGS:
            for op in ('calculate', 'hmac'):
                for k in cases(op):
                    t.append(('%s %s, %s%s' % (a, op, shown(k), w), function_ends, (a, op, k, text)))
            t += [('%s context %s%s' % (a, x, w), context_ends, (a, x, text)) for x in ('init', 'update', 'finalize', 'dealloc')]
            t.append(('%s new%s' % (a, w), new_ends, (a, text)))
    return t
