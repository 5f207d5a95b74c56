"""Abstract interpreter: a worklist dataflow over the control-flow graph whose facts are
(relational numeric constraints x value numbers x segmented memory x monitor state),
partitioned by the decisions taken and joined where only the numeric part differs.
Loops whose trip count the facts do not fix are generalised to an inductive invariant
(induction variables, array-content templates, candidate bounds)."""
from . import terms as tm, dom, ir
from .dom import ec, ea, eadd, esub, eaddc, emul, econst, ZERO
from .mem import *
from . import mem as mm

class AnalysisError(Exception):
    pass

class Cnd:
    """an undecided comparison"""
    __slots__ = ('pred', 'a', 'b')
    def __init__(self, pred, a, b):
        self.pred, self.a, self.b = pred, a, b
    def __eq__(self, o):
        return isinstance(o, Cnd) and (o.pred, o.a, o.b) == (self.pred, self.a, self.b)
    def __hash__(self):
        return hash((self.pred, self.a, self.b))
    @property
    def secret(self):
        return getattr(self.a, 'secret', False) or getattr(self.b, 'secret', False)
    @property
    def exact(self):
        return getattr(self.a, 'exact', True) and getattr(self.b, 'exact', True) and self.a is not UNKNOWN and self.b is not UNKNOWN
    def __repr__(self):
        return '%r %s %r' % (self.a, self.pred, self.b)

INV = {'eq': 'ne', 'ne': 'eq', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult', 'ult': 'uge', 'sgt': 'sle', 'sle': 'sgt', 'sge': 'slt', 'slt': 'sge'}

class Split(Exception):
    """re-execute the instruction in each of these refined states"""
    def __init__(self, states):
        self.states = states

class Obj:
    __slots__ = ('oid', 'kind', 'name', 'size', 'writable', 'secret', 'align', 'site', 'info', 'func')
    def __init__(self, oid, kind, name, size, writable=True, secret=False, site=None, info=None, func=None):
        self.oid, self.kind, self.name, self.size, self.writable, self.secret, self.site, self.info, self.func = oid, kind, name, size, writable, secret, site, info, func
    def __repr__(self):
        return '%s:%s' % (self.kind, self.name)

class State:
    __slots__ = ('cons', 'env', 'mem', 'live', 'nul', 'mon', 'ev', 'fuzzy', 'und', 'path', 'gate', 'loose')
    def __init__(self):
        self.cons, self.env, self.mem, self.live, self.nul, self.mon, self.ev = dom.EMPTY, {}, {}, {}, {}, {}, ()
        self.fuzzy = None
        self.und = frozenset()
        self.path = ()
        self.gate = ()
        self.loose = False   # constraints were joined: not every solution is reachable
    def fork(self):
        s = State()
        s.cons, s.env, s.mem, s.live, s.nul, s.mon = self.cons, dict(self.env), dict(self.mem), dict(self.live), dict(self.nul), dict(self.mon)
        s.ev, s.fuzzy, s.und, s.path, s.gate = self.ev, self.fuzzy, self.und, self.path, self.gate
        s.loose = self.loose
        return s
    def event(self, *e):
        self.ev = self.ev + (e,)
    def blur(self, why):
        if self.fuzzy is None:
            self.fuzzy = why

class Finding:
    def __init__(self, kind, func, file, line, msg, exact=True, path=()):
        self.kind, self.func, self.file, self.line, self.msg, self.exact, self.path = kind, func, file, line, msg, exact, path
    def key(self):
        return (self.kind, self.func, self.line, self.msg)
    def __repr__(self):
        return '%s:%s: %s: [%s] %s' % (self.file, self.line, self.func, self.kind, self.msg)

class Hooks:
    """monitor callbacks; a property analysis overrides what it needs"""
    def load(self, I, st, p, n, ins): pass
    def store(self, I, st, p, n, v, ins): pass
    def branch(self, I, st, cnd, ins): pass
    def range_read(self, I, st, p, n, ins): pass
    def range_write(self, I, st, p, n, ins): pass
    def enter(self, I, st, fn, args): pass
    def leave(self, I, st, fn, ret): pass
    def free(self, I, st, oid, ins): pass
    def frame_exit(self, I, st, oids, fn): pass
    def back(self, I, st, f, head): pass

class Call:
    __slots__ = ('name', 'args', 'ins', 'fn')
    def __init__(self, name, args, ins, fn):
        self.name, self.args, self.ins, self.fn = name, args, ins, fn

def stored_globals(prog):
    """globals whose address flows anywhere but into loads (directly or through address arithmetic)"""
    s = set()
    def nm(f, o):
        g = prog.resolve_global(f.module, o.name)
        if g is None:
            return None
        return (id(g.module), g.name) if g.internal else g.name
    for f in prog.functions():
        derived = {}
        ch = True
        esc = set()
        def roots(o):
            if isinstance(o, ir.GRef):
                n = nm(f, o)
                return {n} if n is not None else set()
            if isinstance(o, ir.Instr):
                return derived.get(o, set())
            return set()
        while ch:
            ch = False
            for b in f.blocks:
                for i in b.instrs:
                    if i.op in ('gep', 'bitcast', 'select', 'freeze'):
                        r = set().union(*[roots(o) for o in i.ops])
                    elif i.op == 'phi':
                        r = set().union(*[roots(v) for v, _ in i.phi])
                    else:
                        continue
                    if r - derived.get(i, set()):
                        derived[i] = derived.get(i, set()) | r
                        ch = True
        for b in f.blocks:
            for i in b.instrs:
                if i.op in ('gep', 'bitcast', 'select', 'freeze', 'phi', 'load', 'icmp'):
                    continue
                if i.op == 'call' and isinstance(i.callee, ir.GRef) and i.callee.name in READONLY_CALLS:
                    for k, o in enumerate(i.ops):
                        if k not in READONLY_CALLS[i.callee.name]:
                            esc |= roots(o)
                    continue
                for o in i.ops:
                    esc |= roots(o)
        s |= esc
    # addresses kept in other globals
    for m in prog.modules:
        for g in m.globals.values():
            if isinstance(g.init, ir.GRef):
                s.add(g.init.name); s.add((id(m), g.init.name))
            elif isinstance(g.init, ir.Agg):
                for _, c in g.init.items:
                    if isinstance(c, ir.GRef) and not (g.module.globals.get(c.name) and g.module.globals[c.name].const):
                        s.add(c.name); s.add((id(m), c.name))
    return s

# calls that only read through these arguments
READONLY_CALLS = {'memcpy': (1,), 'memcmp': (0, 1), 'memmove': (1,), 'strlen': (0,), 'strcmp': (0, 1)}

class Loop:
    pass

class Interp:
    MAXITER = 6000
    MAXDEPTH = 24
    MAXSTATES = 60000
    def __init__(self, prog, contracts=None, hooks=None):
        self.prog = prog
        self.big = prog.bigendian
        self.pw = prog.ptrsize * 8
        self.contracts = contracts or {}
        self.hooks = hooks or Hooks()
        self.findings = []
        self.notes = []
        self.objs = {}
        self.nobj = 0
        self.callstack = []
        self.steps = 0
        self.nstates = 0
        self.stats = {'calls': 0, 'blocks': set(), 'functions': set(), 'splits': 0, 'joins': 0, 'loops': 0, 'accesses': 0, 'exits': 0}
        self._live = {}
        self.globs = {}
        self.fnobjs = {}
        self.gidx = 0
        self.secret_gate = True
        self.unroll_cap = self.MAXITER
        self.siteobjs = {}
        self.fault_primitives = True
        self.stop_on_bad = False
        self.general = True   # summarise loops whose condition is not decided
        self.strings = {}   # strings of unknown length: oid -> position of the terminator

    # ---- findings
    def find(self, st, kind, ins, msg, exact=True):
        f = self.callstack[-1] if self.callstack else None
        fnn = ins.block.func.name if ins is not None else (f.name if f else '?')
        fl = ins.file if ins is not None else (f.file if f else '?')
        ln = ins.line if ins is not None else (f.line if f else 0)
        ex = exact and st.fuzzy is None
        self.findings.append(Finding(kind, fnn, fl, ln, msg, ex, st.path))
    def note(self, msg):
        self.notes.append(msg)

    # ---- objects
    def new(self, st, kind, name, size, content=None, **kw):
        if isinstance(size, int):
            size = ec(size)
        self.nobj += 1
        n = 1
        while True:
            # the same allocation in sibling partitions gets the same identity
            oid = '%s.%d' % (name, n)
            if oid not in st.live:
                o = self.objs.get(oid)
                if o is None or (o.kind, o.size, o.writable, o.site) == (kind, size, kw.get('writable', True), kw.get('site')):
                    break
            n += 1
        self.objs[oid] = Obj(oid, kind, name, size, **kw)
        st.mem[oid] = content if content is not None else Cells({}, UNDEF)
        st.live[oid] = 'live'
        st.nul[oid] = 'nn'
        return Ptr(oid)

    def glob(self, st, module, name):
        g = self.prog.resolve_global(module, name)
        if g is None:
            f = self.prog.resolve(module, name)
            return self.fnptr(name, f)
        key = (id(g.module), name) if g.internal else name
        if g.decl:
            key = name
        oid = self.globs.get(key)
        if oid is None:
            oid = '@' + name + ('' if not g.internal else '.%d' % len(self.globs))
            self.globs[key] = oid
            self.objs[oid] = Obj(oid, 'global', name, ec(g.size) if not g.decl or g.size else None, writable=not g.const, info=g)
        if oid not in st.mem:
            st.live[oid] = 'live'; st.nul[oid] = 'nn'
            cells = {}
            if g.init is not None and self.glob_init(g):
                self.init_cells(cells, 0, g.init, g.size, g.module, st)
                st.mem[oid] = Cells(cells, fill(tm.const(0, 8)))
            else:
                st.mem[oid] = Cells({}, TOP)
        return Ptr(oid)

    def glob_init(self, g):
        """whether the initial value of a global may be assumed when the analysed call starts"""
        if getattr(self, 'program_start', False) and not g.decl:
            return True
        return g.const or g.module.__dict__.get('_ro', {}).get(g.name, None) or self.never_stored(g)

    def never_stored(self, g):
        """no store in the program can name the global directly (its address is only loaded from)"""
        if not hasattr(self.prog, '_stored'):
            self.prog._stored = stored_globals(self.prog)
        return ((id(g.module), g.name) if g.internal else g.name) not in self.prog._stored

    def init_cells(self, cells, off, c, size, module, st):
        if isinstance(c, ir.Agg):
            for o, x in c.items:
                self.init_cells(cells, off + o, x, 0, module, st)
        elif isinstance(c, ir.Const):
            cells[off] = ((c.w + 7) // 8, tm.const(c.v, (c.w + 7) // 8 * 8))
        elif isinstance(c, ir.GRef):
            cells[off] = (self.prog.ptrsize, Ptr(self.gaddr(st, module, c).oid, ec(c.off)))
        elif isinstance(c, ir.Null):
            cells[off] = (self.prog.ptrsize, tm.const(0, self.pw))

    def gaddr(self, st, module, c):
        g = self.prog.resolve_global(module, c.name)
        if g is None:
            return self.fnptr(c.name, self.prog.resolve(module, c.name), st)
        return self.glob(st, module, c.name)

    def fnptr(self, name, f, st=None):
        oid = 'fn:' + name
        if oid not in self.objs:
            self.objs[oid] = Obj(oid, 'func', name, ec(1), writable=False, func=f)
        return Ptr(oid)

    def isnull(self, st, v):
        """True, False or None"""
        if isinstance(v, Ptr):
            s = st.nul.get(v.oid, 'nn')
            return {'maybe': None, 'null': True}.get(s, False)
        if isinstance(v, tm.Term):
            if not v.ts:
                return v.c == 0
        return None

    def split_null(self, st, oid):
        a, b = st.fork(), st.fork()
        a.nul[oid] = 'nn'
        b.nul[oid] = 'null'
        return [a, b]

    # ---- numbers
    def toe(self, st, t, signed=False):
        """linear expression equal to the value; may raise Split; None when nothing linear is known"""
        if isinstance(t, Cnd):
            self.decide(st, t)
        if not isinstance(t, tm.Term):
            return None
        if not t.ts:
            return ec(tm.sgn(t.c, t.w) if signed else t.c)
        e = term_e(st.cons, t)
        m = 1 << t.w
        if e is None:
            x = dom.emk(tm.sgn(t.c, t.w), {a: tm.sgn(k, t.w) for a, k in t.ts})
            lo, hi = dom.ebounds(x)
            if not t.secret and hi - lo < 4 * m and len(t.ts) <= 6:
                # partition on the wrap boundary
                if not st.cons.entails(x) and not st.cons.refutes(x):
                    raise Split(self.alts(st, x))
                y = esub(ec(m - 1), x)
                if not st.cons.entails(y) and not st.cons.refutes(y):
                    raise Split(self.alts(st, y))
                for q in (-2, -1, 1, 2, 3):
                    z = eaddc(x, q * m)
                    if st.cons.entails(z) and st.cons.entails(esub(ec(m - 1), z)):
                        e = z
                        break
            if e is None:
                a = tm.linatom(t)
                e = ea(a)
        if signed:
            h = m // 2
            y = esub(ec(h - 1), e)
            if st.cons.entails(y):
                return e
            if st.cons.refutes(y):
                return eaddc(e, -m)
            if t.secret:
                return None
            raise Split(self.alts(st, y))
        return e

    def alts(self, st, e):
        """partition a state by e >= 0 and e <= -1"""
        out = []
        for x in (e, eaddc(dom.eneg(e), -1)):
            c = st.cons.add(x)
            if c is not None:
                s = st.fork()
                s.cons = c
                if st.loose:
                    s.blur('partition of joined states')
                if not dom.eexact(x):
                    s.blur('partition on an over-approximated value')
                out.append(s)
        self.stats['splits'] += 1
        return out

    def cmp(self, st, pred, a, b):
        """True/False/None"""
        if isinstance(a, Cnd) or isinstance(b, Cnd):
            for x in (a, b):
                if isinstance(x, Cnd):
                    self.decide(st, x)
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if pa and pb:
                if a.oid == b.oid:
                    e = esub(a.off, b.off)
                    s = pred
                    return self.ecmp(st, s, a.off, b.off)
                na, nb = self.isnull(st, a), self.isnull(st, b)
                if na is False and nb is False or (na is True and nb is False) or (nb is True and na is False):
                    return {'eq': False, 'ne': True}.get(pred)
                if na is True and nb is True:
                    return {'eq': True, 'ne': False}.get(pred)
                return None
            p, q = (a, b) if pa else (b, a)
            if isinstance(q, tm.Term) and not q.ts and q.c == 0:
                n = self.isnull(st, p)
                if n is None:
                    return None
                if pred == 'eq':
                    return n
                if pred == 'ne':
                    return not n
                return None
            if isinstance(q, tm.Term) and not q.ts and pred in ('eq', 'ne'):
                return pred == 'ne'
            return None
        if not isinstance(a, tm.Term) or not isinstance(b, tm.Term):
            return None
        if a is b:
            return pred in ('eq', 'uge', 'ule', 'sge', 'sle')
        signed = pred[0] == 's'
        x, y = self.toe(st, a, signed), self.toe(st, b, signed)
        if x is None or y is None:
            return None
        return self.ecmp(st, pred, x, y)

    def ecmp(self, st, pred, x, y):
        d = esub(x, y)
        c = st.cons
        p = pred[1:] if pred[0] in 'us' else pred
        if p == 'eq' or p == 'ne':
            if c.entails_eq(d):
                return p == 'eq'
            if c.refutes(d) or c.refutes(dom.eneg(d)):
                return p == 'ne'
            return None
        if p == 'lt':
            p, d = 'ge', d
            r = self.sign(c, d)
            return None if r is None else not r
        if p == 'ge':
            return self.sign(c, d)
        if p == 'gt':
            r = self.sign(c, dom.eneg(d))
            return None if r is None else not r
        if p == 'le':
            return self.sign(c, dom.eneg(d))
        return None

    def sign(self, c, e):
        if c.entails(e):
            return True
        if c.refutes(e):
            return False
        return None

    def assume(self, st, cnd, truth):
        """states (possibly none) in which the condition has the given truth"""
        pred, a, b = cnd.pred, cnd.a, cnd.b
        if not truth:
            pred = INV[pred]
        r = self.cmp(st, pred, a, b)
        if r is True:
            return [st]
        if r is False:
            return []
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            p, q = (a, b) if isinstance(a, Ptr) else (b, a)
            if isinstance(q, tm.Term) and not q.ts and pred in ('eq', 'ne'):
                s = st.fork()
                s.nul[p.oid] = 'null' if pred == 'eq' else 'nn'
                return [s]
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.oid == q.oid:
                return self.assume_e(st, pred, p.off, q.off)
            s = st.fork()
            if isinstance(p, Ptr) and isinstance(q, Ptr) and self.isnull(st, p) is None:
                return [y for x in self.split_null(st, p.oid) for y in self.assume(x, cnd, truth)]
            if isinstance(p, Ptr) and isinstance(q, Ptr) and self.isnull(st, q) is None:
                return [y for x in self.split_null(st, q.oid) for y in self.assume(x, cnd, truth)]
            s.blur('pointer comparison')
            return [s]
        if not isinstance(a, tm.Term) or not isinstance(b, tm.Term):
            s = st.fork()
            s.blur('branch on an unknown value')
            return [s]
        signed = pred[0] == 's'
        x, y = self.toe(st, a, signed), self.toe(st, b, signed)
        if x is None or y is None:
            s = st.fork()
            if not (a.exact and b.exact):
                s.blur('branch on an over-approximated value')
            return [s]
        return self.assume_e(st, pred, x, y)

    def assume_e(self, st, pred, x, y):
        d = esub(x, y)
        p = pred[1:] if pred[0] in 'us' else pred
        if p == 'eq':
            c = st.cons.addeq(d)
            cs = [c]
        elif p == 'ne':
            cs = [st.cons.add(eaddc(d, -1)), st.cons.add(eaddc(dom.eneg(d), -1))]
        elif p == 'ge':
            cs = [st.cons.add(d)]
        elif p == 'gt':
            cs = [st.cons.add(eaddc(d, -1))]
        elif p == 'le':
            cs = [st.cons.add(dom.eneg(d))]
        else:
            cs = [st.cons.add(eaddc(dom.eneg(d), -1))]
        out = []
        for c in cs:
            if c is not None:
                s = st.fork()
                s.cons = c
                if st.loose:
                    s.blur('partition of joined states')
                if not dom.eexact(d):
                    s.blur('branch on an over-approximated value')
                out.append(s)
        return out

    def decide(self, st, cnd):
        """make a comparison decided, splitting the state when it is not"""
        r = self.cmp(st, cnd.pred, cnd.a, cnd.b)
        if r is not None:
            return r
        ss = self.assume(st, cnd, True) + self.assume(st, cnd, False)
        if len(ss) == 1 and ss[0] is st:
            return True
        if ss and all(s.cons is st.cons and s.nul == st.nul for s in ss):
            return None
        raise Split(ss)

    # ---- values
    def val(self, st, o):
        if isinstance(o, ir.Instr) or isinstance(o, ir.Arg):
            v = st.env.get(o)
            if v is None:
                raise AnalysisError('no value for %r in %s' % (o, self.callstack[-1].name))
            return v
        if isinstance(o, ir.Const):
            return tm.const(o.v, o.w)
        if isinstance(o, ir.Null):
            return tm.const(0, self.pw)
        if isinstance(o, ir.GRef):
            p = self.gaddr(st, self.callstack[-1].module, o)
            return Ptr(p.oid, ec(o.off))
        if isinstance(o, ir.Undef):
            if o.ty is not None and o.ty.kind == 'int':
                return tm.fresh('undef', o.ty.bits, exact=False)
            return UNKNOWN
        return UNKNOWN

    def term(self, st, o):
        """value as a Term, splitting comparisons"""
        v = self.val(st, o)
        if isinstance(v, Cnd):
            r = self.decide(st, v)
            if r is None:
                return tm.fresh('cond', 1, exact=False, secret=v.secret)
            return tm.const(1 if r else 0, 1)
        return v

    # ---- memory
    def check_ptr(self, st, p, ins, what):
        """validity of a pointer to be dereferenced; returns the object or None"""
        if isinstance(p, tm.Term):
            if not p.ts and p.c < 4096:
                self.find(st, 'null', ins, 'null pointer dereference (%s)' % what)
                return None
            self.find(st, 'wild', ins, 'dereference of an integer value (%s)' % what, exact=False)
            return None
        if not isinstance(p, Ptr):
            self.note('unknown pointer %s at %r' % (what, ins))
            st.blur('unknown pointer')
            return None
        s = st.nul.get(p.oid, 'nn')
        if s == 'null':
            self.find(st, 'null', ins, 'null pointer dereference of %s (%s)' % (self.objs[p.oid].name, what))
            return None
        if s == 'maybe':
            self.find(st, 'null', ins, 'dereference of %s, which may be null here (%s)' % (self.objs[p.oid].name, what))
            st.nul[p.oid] = 'nn'
        l = st.live.get(p.oid, 'live')
        if l != 'live':
            self.find(st, 'uaf', ins, '%s of %s after it was %s' % (what, self.objs[p.oid].name, l))
            return None
        return self.objs[p.oid]

    def in_bounds(self, st, o, off, n, ins, what):
        """n: expression; reports an access outside the object"""
        self.stats['accesses'] += 1
        ok = True
        if off[1] or off[0] < 0:
            if not st.cons.entails(off):
                ok = self.bad(st, off, ins, '%s before the start of %s (offset %s)' % (what, o.name, dom.eshow(off)))
        if ok and o.size is not None:
            r = esub(o.size, eadd(off, n))
            if not (econst(r) and r[0] >= 0) and not st.cons.entails(r):
                ok = self.bad(st, r, ins, '%s of %s bytes at offset %s leaves %s (%s bytes)' % (what, dom.eshow(n), dom.eshow(off), o.name, dom.eshow(o.size)))
        return ok

    def decide_e(self, st, e):
        if not st.cons.entails(e) and not st.cons.refutes(e):
            raise Split(self.alts(st, e))

    def bad(self, st, e, ins, msg):
        gone = st.cons.refutes(e)
        self.find(st, 'oob', ins, msg, exact=gone or dom.eexact(e) and not st.loose)
        if self.stop_on_bad:
            # what happens after such an access is not defined
            if gone:
                raise Split([])
            c = st.cons.add(e)
            if c is not None:
                s = st.fork()
                s.cons = c
                raise Split([s])
        return False

    def load(self, st, p, n, ins, ty=None):
        o = self.check_ptr(st, p, ins, 'read')
        if o is None:
            return self.unk(ty, n)
        if o.kind == 'func':
            return self.unk(ty, n)
        self.hooks.load(self, st, p, n, ins)
        if p.oid in self.strings:
            # a string: is the character the terminator?
            self.decide_e(st, esub(self.strings[p.oid], eaddc(p.off, 1)))
        if not self.in_bounds(st, o, p.off, ec(n), ins, 'read'):
            return self.unk(ty, n)
        if p.oid not in st.mem:
            return self.unk(ty, n)
        m = st.mem[p.oid]
        if isinstance(m, Cells):
            if econst(p.off):
                v, prob = read_cells(m, p.off[0], n, self.big)
            else:
                m = to_segs(m, o.size)
                v, prob = self.rs(st, m, p.off, n)
        else:
            v, prob = self.rs(st, m, p.off, n)
        if prob == 'undef':
            self.find(st, 'uninit', ins, 'read of uninitialised bytes of %s' % o.name)
        if v is UNKNOWN and prob is None and p.oid in getattr(self, 'texts', ()) and o.kind != 'func':
            # arbitrary characters
            return tm.fresh('ch', n * 8)
        if v is UNKNOWN:
            if prob is None:
                self.note('unknown contents of %s read at %s:%s' % (o.name, ins.file, ins.line))
            v = self.unk(ty, n)
            if isinstance(v, tm.Term) and prob is None and holds_secret(st.mem[p.oid]):
                v = tm.fresh('u', n * 8, secret=True, exact=False)
            # the same location keeps the same unknown value
            if econst(p.off) and isinstance(st.mem[p.oid], Cells) and prob is None:
                st.mem[p.oid] = write_cells(st.mem[p.oid], p.off[0], n, v, self.big)
        return v

    def rs(self, st, m, off, n):
        try:
            return read_segs(st.cons, m, off, n, self.big)
        except NeedSplit as x:
            raise Split(self.alts(st, x.e))

    def unk(self, ty, n):
        if ty is not None and ty.kind == 'int':
            return tm.fresh('u', n * 8, exact=False)
        if ty is None and n in (1, 2, 4, 8):
            return tm.fresh('u', n * 8, exact=False)
        return UNKNOWN

    def store(self, st, p, n, v, ins):
        o = self.check_ptr(st, p, ins, 'write')
        if o is None:
            return
        self.hooks.store(self, st, p, n, v, ins)
        if not o.writable:
            self.find(st, 'rowrite', ins, 'write to read-only %s' % o.name)
            return
        if not self.in_bounds(st, o, p.off, ec(n), ins, 'write'):
            return
        m = st.mem.get(p.oid)
        if m is None:
            return
        if isinstance(m, Cells) and econst(p.off):
            st.mem[p.oid] = write_cells(m, p.off[0], n, v, self.big)
            return
        m = to_segs(m, o.size)
        if n == 1 and isinstance(v, tm.Term) and not v.ts:
            k = fill(v)
        else:
            k = ('v', v, n)
        self.seg_put(st, p.oid, m, p.off, eaddc(p.off, n), [(p.off, eaddc(p.off, n), k)])

    def seg_put(self, st, oid, m, lo, hi, kinds):
        try:
            r = put(st.cons, m, lo, hi, kinds, self.big)
        except NeedSplit as x:
            raise Split(self.alts(st, x.e))
        st.mem[oid] = Segs(norm(st.cons, r.s))

    def fill_range(self, st, p, n, byte, ins, what='write'):
        """memset-like effect; n an expression"""
        o = self.check_ptr(st, p, ins, what)
        if o is None:
            return
        self.hooks.range_write(self, st, p, n, ins)
        if not o.writable:
            self.find(st, 'rowrite', ins, 'write to read-only %s' % o.name)
            return
        if not self.in_bounds(st, o, p.off, n, ins, what):
            return
        if byte is None:
            kind = TOP
        else:
            kind = fill(byte)
        m = st.mem[p.oid]
        if isinstance(m, Cells) and econst(p.off) and econst(n):
            lo, hi = p.off[0], p.off[0] + n[0]
            if o.size is not None and econst(o.size) and lo == 0 and hi >= o.size[0]:
                st.mem[p.oid] = Cells({}, kind)
                return
            if not any(lo < c + x[0] and c < hi for c, x in m.c.items()) and m.gap == kind:
                return
        m = to_segs(m, o.size)
        self.seg_put(st, p.oid, m, p.off, eadd(p.off, n), [(p.off, eadd(p.off, n), kind)])
        self.recell(st, p.oid)

    def recell(self, st, oid):
        """go back to a cell table when all bounds are constant"""
        m = st.mem[oid]
        if isinstance(m, Cells):
            return
        if len(m.s) > 40:
            return
        cells, gap = {}, None
        for lo, hi, k in m.s:
            if not econst(lo):
                return
            if not econst(hi) and not (k == m.s[-1][2]):
                return
        # the widest constant segment becomes the gap
        best = None
        for lo, hi, k in m.s:
            if k[0] != 'v':
                w = (hi[0] - lo[0]) if econst(hi) else 1 << 60
                if best is None or w > best[0]:
                    best = (w, k)
        gap = best[1] if best else UNDEF
        for lo, hi, k in m.s:
            if k == gap:
                continue
            if not econst(hi):
                return
            if k[0] == 'v':
                cells[lo[0]] = (k[2], k[1])
            elif k[0] == 'it' and hi[0] - lo[0] <= 160:
                for i in range(lo[0], hi[0]):
                    b = it_at(k, ec(i))
                    if b is None:
                        return
                    cells[i] = (1, b)
            else:
                return
        st.mem[oid] = Cells(cells, gap)

    def copy_range(self, st, d, s, n, ins, overlap=False):
        """memcpy-like effect; n an expression"""
        so = self.check_ptr(st, s, ins, 'read')
        do = self.check_ptr(st, d, ins, 'write')
        if so is None or do is None:
            return
        self.hooks.range_read(self, st, s, n, ins)
        self.hooks.range_write(self, st, d, n, ins)
        if not do.writable:
            self.find(st, 'rowrite', ins, 'write to read-only %s' % do.name)
            return
        ok = self.in_bounds(st, so, s.off, n, ins, 'read')
        ok = self.in_bounds(st, do, d.off, n, ins, 'write') and ok
        if not ok:
            return
        if s.oid == d.oid and not overlap:
            a = esub(d.off, eadd(s.off, n)); b = esub(s.off, eadd(d.off, n))
            if not st.cons.entails(a) and not st.cons.entails(b) and not st.cons.entails(dom.eneg(n)):
                self.find(st, 'overlap', ins, 'overlapping copy within %s' % so.name, exact=st.cons.refutes(a) and st.cons.refutes(b))
        sm, dm = st.mem[s.oid], st.mem[d.oid]
        if isinstance(sm, Cells) and isinstance(dm, Cells) and econst(s.off) and econst(d.off) and econst(n) and n[0] <= 4096:
            # cell-wise when the cells lie completely inside
            lo, hi = s.off[0], s.off[0] + n[0]
            part = sorted((o, c) for o, c in sm.c.items() if o < hi and o + c[0] > lo)
            pos, good = lo, True
            for o, c in part:
                if o != pos or o + c[0] > hi:
                    good = False
                    break
                pos = o + c[0]
            if good and pos == hi:
                m = dm
                for o, c in part:
                    m = write_cells(m, d.off[0] + o - lo, c[0], c[1], self.big)
                st.mem[d.oid] = m
                return
        sm2 = to_segs(sm, so.size)
        try:
            x = extract(st.cons, sm2, s.off, eadd(s.off, n), self.big)
        except NeedSplit as e:
            raise Split(self.alts(st, e.e))
        x = shift(x, esub(d.off, s.off))
        if any(k[0] == 'undef' for _, _, k in x):
            # reading uninitialised bytes is reported only when certainly non-empty
            for lo, hi, k in x:
                if k[0] == 'undef' and st.cons.entails(eaddc(esub(hi, lo), -1)):
                    self.find(st, 'uninit', ins, 'copy of uninitialised bytes of %s' % so.name)
        self.seg_put(st, d.oid, to_segs(dm, do.size), d.off, eadd(d.off, n), x)
        self.recell(st, d.oid)

    # ---- instructions
    def gep(self, st, ins):
        base = self.val(st, ins.ops[0])
        c, terms = ins.geps
        off = ec(c)
        unk = False
        for sc, o in terms:
            t = self.term(st, o)
            e = self.toe(st, t, True) if isinstance(t, tm.Term) else None
            if e is None:
                if isinstance(t, tm.Term):
                    lo, hi = tm.irange(t)
                    if hi < 1 << (t.w - 1):
                        e = ea(tm.linatom(t))
                    else:
                        self.hooks.branch(self, st, t, ins)
                        unk = True
                        continue
                else:
                    unk = True
                    continue
            if isinstance(t, tm.Term) and t.secret:
                self.hooks.branch(self, st, t, ins)
            off = eadd(off, e, sc)
        if unk:
            return UNKNOWN
        if isinstance(base, Ptr):
            return Ptr(base.oid, eadd(base.off, off))
        if isinstance(base, tm.Term):
            return tm.add(base, toterm(off, self.pw))
        return UNKNOWN

    def bin(self, st, ins):
        op = ins.op
        a, b = self.term(st, ins.ops[0]), self.term(st, ins.ops[1])
        w = ins.ty.bits
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid:
                return toterm(esub(a.off, b.off), w)
            if op == 'add' and isinstance(a, Ptr) != isinstance(b, Ptr):
                p, q = (a, b) if isinstance(a, Ptr) else (b, a)
                e = self.toe(st, q, True)
                if e is not None:
                    return Ptr(p.oid, eadd(p.off, e))
            if op == 'sub' and isinstance(a, Ptr):
                e = self.toe(st, b, True)
                if e is not None:
                    return Ptr(a.oid, esub(a.off, e))
            if op == 'and' and isinstance(a, Ptr) or isinstance(b, Ptr):
                return tm.fresh('addr', w, exact=True)
            return UNKNOWN
        if not isinstance(a, tm.Term) or not isinstance(b, tm.Term):
            return tm.fresh('u', w, exact=False)
        r = binop(op, a, b)
        if op in ('mul', 'add', 'sub', 'shl'):
            mm.remember(op, a, b, r)
        if op in ('udiv', 'urem') and a.ts and r.ts and not b.ts and b.c and not a.secret:
            # c * q <= a <= c * q + c - 1
            x = self.toe(st, a)
            q = self.toe(st, r if op == 'udiv' else binop('udiv', a, b))
            if x is not None and q is not None:
                d = esub(x, emul(q, b.c))
                for z in ((d, eaddc(dom.eneg(d), b.c - 1)) if op == 'udiv' else ()):
                    c = st.cons.add(z)
                    st.cons = c if c is not None else st.cons
                if op == 'urem':
                    y = self.toe(st, r)
                    c = st.cons.addeq(esub(y, d)) if y is not None else None
                    st.cons = c if c is not None else st.cons
        return r

    def cast(self, st, ins):
        op = ins.op
        v = self.val(st, ins.ops[0])
        if op in ('bitcast', 'freeze'):
            return v
        if op in ('ptrtoint', 'inttoptr'):
            return v
        if isinstance(v, Cnd):
            v = self.term(st, ins.ops[0])
        if not isinstance(v, tm.Term):
            if isinstance(v, Ptr) and op == 'trunc':
                return tm.fresh('addr', ins.ty.bits)
            return tm.fresh('u', ins.ty.bits, exact=False) if ins.ty.kind == 'int' else UNKNOWN
        w = ins.ty.bits
        if op == 'trunc':
            if v.ts and not v.secret:
                e = term_e(st.cons, v)
                if e is not None and st.cons.entails(esub(ec((1 << w) - 1), e)) :
                    return toterm(e, w)
            return tm.trunc(v, w)
        if op == 'zext':
            if v.ts and tm.nowrap(v) is None and not v.secret:
                e = self.toe(st, v)
                return toterm(e, w)
            return tm.zext(v, w)
        if op == 'sext':
            if v.ts and (tm.nowrap(v) is None or tm.irange(v)[1] >> (v.w - 1)) and not v.secret:
                e = self.toe(st, v, True)
                return toterm(e, w)
            return tm.sext(v, w)
        return UNKNOWN

    def exec(self, st, ins):
        """one non-terminator, non-call instruction"""
        op = ins.op
        env = st.env
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            if ins.ty.bits == 1 and op == 'xor' and isinstance(ins.ops[1], ir.Const):
                v = self.val(st, ins.ops[0])
                if isinstance(v, Cnd):
                    env[ins] = Cnd(INV[v.pred], v.a, v.b) if ins.ops[1].v else v
                    return
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                d = self.term(st, ins.ops[1])
                if isinstance(d, tm.Term) and d.ts:
                    e = self.toe(st, d)
                    if e is not None and not st.cons.entails(eaddc(e, -1)):
                        self.find(st, 'div', ins, 'division by a value that may be zero', exact=dom.eexact(e))
                a = self.term(st, ins.ops[0])
                if op[0] == 's' and isinstance(a, tm.Term) and isinstance(d, tm.Term) and not d.ts and a.ts and not tm.sgn(d.c, d.w) < 0:
                    e = self.toe(st, a, True)
                    if e is not None and st.cons.entails(e):
                        env[ins] = binop('u' + op[1:], toterm(e, a.w), d)
                        return
            env[ins] = self.bin(st, ins)
        elif op == 'load':
            p = self.val(st, ins.ops[0])
            v = self.load(st, p, ins.ty.size, ins, ins.ty)
            if ins.ty.kind == 'int' and isinstance(v, tm.Term) and v.w != ins.ty.bits:
                v = tm.trunc(v, ins.ty.bits) if v.w > ins.ty.bits else tm.zext(v, ins.ty.bits)
            env[ins] = v
        elif op == 'store':
            v = self.val(st, ins.ops[0])
            if isinstance(v, Cnd):
                v = self.term(st, ins.ops[0])
            p = self.val(st, ins.ops[1])
            t = ins.ops[0]
            n = self.opsize(ins.ops[0])
            if isinstance(v, tm.Term) and v.w < n * 8:
                v = tm.zext(v, n * 8)
            self.store(st, p, n, v, ins)
        elif op == 'gep':
            env[ins] = self.gep(st, ins)
        elif op == 'icmp':
            a, b = self.val(st, ins.ops[0]), self.val(st, ins.ops[1])
            # (i1 compared with a constant)
            if isinstance(a, Cnd) and isinstance(b, tm.Term) and not b.ts and ins.pred in ('eq', 'ne'):
                pos = (ins.pred == 'eq') == bool(b.c)
                env[ins] = a if pos else Cnd(INV[a.pred], a.a, a.b)
                return
            r = self.cmp(st, ins.pred, a, b)
            env[ins] = Cnd(ins.pred, a, b) if r is None else tm.const(1 if r else 0, 1)
        elif op == 'alloca':
            n = 1
            if ins.ops:
                t = self.term(st, ins.ops[0])
                if isinstance(t, tm.Term) and not t.ts:
                    n = t.c
            p = self.new(st, 'stack', ins.name or 'tmp', ins.aty.size * n, site=ins)
            st.mon['$frame'] = st.mon.get('$frame', ()) + (p.oid,)
            env[ins] = p
        elif op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            env[ins] = self.cast(st, ins)
        elif op == 'select':
            c = self.val(st, ins.ops[0])
            a, b = self.val(st, ins.ops[1]), self.val(st, ins.ops[2])
            if isinstance(c, Cnd):
                r = self.cmp(st, c.pred, c.a, c.b)
                if r is None:
                    if c.secret and isinstance(a, tm.Term) and isinstance(b, tm.Term):
                        env[ins] = sel(c, a, b)
                        return
                    self.decide(st, c)
                    env[ins] = UNKNOWN
                    return
                c = tm.const(1 if r else 0, 1)
            if isinstance(c, tm.Term) and not c.ts:
                env[ins] = a if c.c else b
            else:
                env[ins] = a if a == b else UNKNOWN
        elif op in ('extractvalue', 'insertvalue', 'fadd', 'fsub', 'fmul', 'fdiv', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fcmp', 'fpext', 'fptrunc', 'vaarg', 'fneg', 'atomicrmw', 'cmpxchg', 'extractelement', 'insertelement', 'shufflevector', 'fence'):
            if ins.ty.kind == 'int':
                env[ins] = tm.fresh('u', ins.ty.bits, exact=False)
            else:
                env[ins] = UNKNOWN
        elif op == 'fence':
            pass
        else:
            raise AnalysisError('instruction %s not modelled at %s:%s' % (op, ins.file, ins.line))

    def opsize(self, o):
        if isinstance(o, (ir.Instr, ir.Arg)):
            return o.ty.size
        if isinstance(o, ir.Const):
            return (o.w + 7) // 8
        if isinstance(o, ir.Undef) and o.ty is not None:
            return o.ty.size
        return self.prog.ptrsize

    # ---- calls
    def call(self, st, ins):
        """list of (state, value)"""
        cal = ins.callee
        module = self.callstack[-1].module
        args = [self.val(st, o) for o in ins.ops]
        for i, a in enumerate(args):
            if isinstance(a, Cnd):
                args[i] = self.term(st, ins.ops[i])
        name, f = None, None
        if isinstance(cal, ir.GRef):
            name = cal.name
            f = self.prog.resolve(module, name)
        elif isinstance(cal, ir.Opaque) and cal.text == 'asm' and (ins.ty is None or ins.ty.kind == 'void'):
            # an empty asm statement only constrains the compiler
            h = getattr(self.hooks, 'barrier', None)
            if h is not None:
                h(self, st, args, ins)
            return [(st, None)]
        else:
            p = self.val(st, cal) if not isinstance(cal, ir.Opaque) else UNKNOWN
            if isinstance(p, Ptr) and self.objs[p.oid].kind == 'func':
                name = self.objs[p.oid].name
                f = self.objs[p.oid].func
        self.stats['calls'] += 1
        return self.invoke(st, name, f, args, ins)

    def invoke(self, st, name, f, args, ins):
        h = self.contracts.get(name) if name else None
        if h is None and name and name.startswith('llvm.'):
            from . import libc
            h = libc.intrinsic(name)
        if h is not None:
            s2 = st.fork()
            try:
                r = h(self, s2, Call(name, args, ins, f))
            except NeedSplit as x:
                raise Split(self.alts(st, x.e))
            except Split as x:
                # re-execute from the state before the call, refined as requested
                out = []
                for q in x.states:
                    s3 = st.fork()
                    s3.cons, s3.nul, s3.fuzzy = q.cons, {**s3.nul, **{k: v for k, v in q.nul.items() if k in s3.nul}}, q.fuzzy
                    out.append(s3)
                raise Split(out)
            return r
        if f is not None and not f.decl:
            if len(self.callstack) > self.MAXDEPTH:
                self.note('call depth exceeded at %s' % name)
                st.blur('call depth')
                return [(st, self.unk(f.retty, f.retty.size))]
            if f in self.callstack:
                self.find(st, 'recursion', ins, 'recursive call of %s' % name)
                st.blur('recursion')
                return [(st, self.unk(f.retty, f.retty.size))]
            return self.run(f, args, st)
        # unknown external function
        self.note('call of %s has no contract' % (name or 'a computed function'))
        st.blur('call of unmodelled %s' % (name or 'a computed function'))
        for a in args:
            if isinstance(a, Ptr) and a.oid in st.mem and self.objs[a.oid].writable:
                st.mem[a.oid] = Cells({}, TOP)
        return [(st, self.unk(ins.ty, ins.ty.size or 4) if ins.ty.kind == 'int' else UNKNOWN)]

    def run(self, f, args, st):
        """analyse the body of a function; list of (state, return value)"""
        self.stats['functions'].add(f.name)
        saved = st.env
        sframe = st.mon.get('$frame', ())
        st.mon['$frame'] = ()
        st.env = {}
        for a, v in zip(f.args, args):
            st.env[a] = v
        if f.vararg:
            st.mon['$va'] = tuple(args[len(f.args):])
        self.callstack.append(f)
        try:
            self.hooks.enter(self, st, f, args)
            exits, rets, backs = self.region(f, f.blocks[0], None, [(f.blocks[0], st)])
        finally:
            self.callstack.pop()
        out = []
        for s, v, ins in rets:
            fr = s.mon['$frame']
            self.callstack.append(f)
            self.hooks.frame_exit(self, s, fr, f)
            for oid in fr:
                s.live[oid] = 'out of scope'
                s.mem.pop(oid, None)
            s.mon['$frame'] = sframe
            s.env = {}
            self.hooks.leave(self, s, f, v)
            self.callstack.pop()
            out.append((s, v))
        out = self.merge_exits(out)
        for s, v in out:
            s.env = dict(saved)
        return out

    # ---- control flow
    def livein(self, f):
        r = self._live.get(f)
        if r is not None:
            return r
        use, defs = {}, {}
        for b in f.blocks:
            u, d = set(), set()
            for i in b.instrs:
                if i.op != 'phi':
                    for o in i.ops:
                        if isinstance(o, (ir.Instr, ir.Arg)) and o not in d:
                            u.add(o)
                    if isinstance(i.callee, (ir.Instr, ir.Arg)) and i.callee not in d:
                        u.add(i.callee)
                d.add(i)
            use[b], defs[b] = u, d
        live = {b: set(use[b]) for b in f.blocks}
        ch = True
        order = sorted(f.blocks, key=lambda b: -b.rpo)
        phius = {b: set() for b in f.blocks}
        for b in f.blocks:
            for i in b.instrs:
                if i.op != 'phi':
                    break
                for v, p in i.phi:
                    if isinstance(v, (ir.Instr, ir.Arg)):
                        phius[p].add(v)
        while ch:
            ch = False
            for b in order:
                o = set(phius[b])
                for s in b.succs:
                    o |= live[s] - {i for i in s.instrs if i.op == 'phi'}
                n = use[b] | (o - defs[b])
                # phi results of the block itself are assigned on the edge: they are live in
                for i in b.instrs:
                    if i.op != 'phi':
                        break
                    n.add(i)
                if n != live[b]:
                    live[b] = n
                    ch = True
        res = {b: sorted(live[b], key=lambda x: (isinstance(x, ir.Instr), x.idx)) for b in f.blocks}
        self._live[f] = res
        return res

    def skey(self, st, b):
        lv = self.livein(b.func)[b]
        return (tuple(st.env.get(v) for v in lv), tuple(sorted((k, m.key()) for k, m in st.mem.items())), tuple(sorted(st.live.items())),
                tuple(sorted(st.nul.items())), self.monkey(st), st.ev, st.und)

    def monkey(self, st):
        return tuple(sorted(((k, v) for k, v in st.mon.items()), key=lambda x: x[0]))

    def merge(self, b, states):
        """join states that differ in their numeric constraints only"""
        if len(states) < 2:
            return states
        d = {}
        for s in states:
            k = self.skey(s, b)
            d.setdefault(k, []).append(s)
        out = [s for l in d.values() for s in self.unite(l)]
        if self.secret_gate and len(out) > 1:
            out = self.gate_merge(b, out)
        return out

    MAXDISJ = 12
    def unite(self, l):
        """join states that differ in their numeric constraints only: a state implied by another
        goes; the rest are kept apart while they are few"""
        if len(l) < 2:
            return l
        def covers(o, s):
            return (o.cons is s.cons or o.cons.rows == s.cons.rows or all(s.cons.entails(r) for r in o.cons.rows)) and (o.fuzzy is None or s.fuzzy is not None) and (not o.loose or s.loose)
        out = []
        for s in l:
            if any(covers(o, s) for o in out):
                self.stats['joins'] += 1
                continue
            out = [o for o in out if not covers(s, o)] + [s]
        if len(out) <= self.MAXDISJ:
            return out
        o = out[0]
        for s in out[1:]:
            o.cons = o.cons.join(s.cons)
            o.fuzzy = o.fuzzy if (o.fuzzy is None) else s.fuzzy
            self.stats['joins'] += 1
        o.loose = True
        self.stats['loose'] = self.stats.get('loose', 0) + 1
        return [o]

    def merge_exits(self, outs):
        if len(outs) < 2:
            return outs
        d = {}
        for s, v in outs:
            k = (v, tuple(sorted((k, m.key()) for k, m in s.mem.items())), tuple(sorted(s.live.items())), tuple(sorted(s.nul.items())), self.monkey(s), s.ev, s.und)
            d.setdefault(k, []).append((s, v))
        out = []
        for l in d.values():
            v = l[0][1]
            out += [(s, v) for s in self.unite([s for s, _ in l])]
        ch = self.secret_gate
        while ch and len(out) > 1:
            ch = False
            for i in range(len(out)):
                for j in range(i + 1, len(out)):
                    (x, vx), (y, vy) = out[i], out[j]
                    if x.gate and y.gate and x.gate[-1][0] == y.gate[-1][0] and x.gate[:-1] == y.gate[:-1] and x.gate[-1][2] != y.gate[-1][2]:
                        if not x.gate[-1][2]:
                            (x, vx), (y, vy) = (y, vy), (x, vx)
                        v = vx
                        if vx != vy:
                            if not (isinstance(vx, tm.Term) and isinstance(vy, tm.Term) and vx.w == vy.w):
                                continue
                            v = sel(x.gate[-1][1], vx, vy)
                        m = self.gated(None, x, y)
                        if m is not None:
                            out = [s for k, s in enumerate(out) if k not in (i, j)] + [(m, v)]
                            ch = True
                            break
                if ch:
                    break
        return out

    def gate_merge(self, b, states):
        """join the two sides of a data-dependent branch into gated values"""
        ch = True
        while ch and len(states) > 1:
            ch = False
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    x, y = states[i], states[j]
                    if x.gate and y.gate and x.gate[-1][0] == y.gate[-1][0] and x.gate[:-1] == y.gate[:-1] and x.gate[-1][2] != y.gate[-1][2]:
                        m = self.gated(b, x, y) if x.gate[-1][2] else self.gated(b, y, x)
                        if m is not None:
                            states = [s for k, s in enumerate(states) if k not in (i, j)] + [m]
                            ch = True
                            break
                if ch:
                    break
        return states

    def gated(self, b, t, f):
        gid, cnd, _, base = t.gate[-1]
        if t.live != f.live or t.nul != f.nul or t.ev != f.ev or self.monkey(t) != self.monkey(f) or t.mem.keys() != f.mem.keys():
            return None
        m = t.fork()
        m.cons = base
        m.gate = t.gate[:-1]
        m.fuzzy = t.fuzzy if t.fuzzy is None else f.fuzzy
        for v in (self.livein(b.func)[b] if b is not None else ()):
            p, q = t.env.get(v), f.env.get(v)
            if p != q:
                if isinstance(p, tm.Term) and isinstance(q, tm.Term) and p.w == q.w:
                    m.env[v] = sel(cnd, p, q)
                else:
                    return None
        for o in t.mem:
            p, q = t.mem[o], f.mem[o]
            if p.key() == q.key():
                continue
            if isinstance(p, Cells) and isinstance(q, Cells) and p.gap == q.gap and {(k, v[0]) for k, v in p.c.items()} == {(k, v[0]) for k, v in q.c.items()}:
                c = dict(p.c)
                for k in c:
                    if c[k] != q.c[k]:
                        if not (isinstance(c[k][1], tm.Term) and isinstance(q.c[k][1], tm.Term)):
                            return None
                        c[k] = (c[k][0], sel(cnd, c[k][1], q.c[k][1]))
                m.mem[o] = Cells(c, p.gap)
            elif isinstance(p, Segs) and isinstance(q, Segs) and len(p.s) == len(q.s):
                out = []
                for a, c in zip(p.s, q.s):
                    if a == c:
                        out.append(a)
                    elif a[:2] == c[:2] and a[2][0] == 'v' and c[2][0] == 'v' and a[2][2] == c[2][2] and isinstance(a[2][1], tm.Term) and isinstance(c[2][1], tm.Term):
                        out.append((a[0], a[1], ('v', sel(cnd, a[2][1], c[2][1]), a[2][2])))
                    else:
                        return None
                m.mem[o] = Segs(out)
            else:
                return None
        return m

    def region(self, f, head, body, start):
        """dataflow over the blocks of body (None: the whole function), inner loops collapsed.
        Returns (exits [(block, state)], returns [(state, value, ins)], back-edge states at head)."""
        work = {}
        exits, rets, backs = [], [], []
        first = True
        for b, s in start:
            work.setdefault(b, []).append(s)
        while work:
            b = min(work, key=lambda x: x.rpo)
            states = work.pop(b)
            states = self.merge(b, states)
            self.nstates += len(states)
            if self.nstates > self.MAXSTATES:
                raise AnalysisError('too many partitions in %s' % f.name)
            if b.loophead and not (b is head and first) and b in f.loops:
                # an inner loop (or the loop itself when entered from outside)
                res = self.loop(f, b, f.loops[b], states)
                outs, rr = res
                rets += rr
            else:
                outs = []
                for s in states:
                    self.stats['blocks'].add((f.name, b.idx))
                    o, r = self.block(s, b)
                    outs += o
                    rets += r
            first = False
            for t, s in outs:
                if t is head and body is not None:
                    backs.append(s)
                elif body is not None and t not in body:
                    exits.append((t, s))
                else:
                    work.setdefault(t, []).append(s)
        return exits, rets, backs

    def edge(self, st, src, dst):
        """assign the phis of dst"""
        new = []
        for i in dst.instrs:
            if i.op != 'phi':
                break
            for v, p in i.phi:
                if p is src:
                    new.append((i, self.val(st, v)))
                    break
        for i, v in new:
            st.env[i] = v
        return dst, st

    def block(self, st, b):
        """execute a block; returns ([(successor, state)], [(state, value, ins)])"""
        outs, rets = [], []
        todo = [(st, 0)]
        cnt = 0
        ins = b.instrs
        while todo:
            s, k = todo.pop()
            cnt += 1
            if cnt > 4000:
                raise AnalysisError('too many partitions in block %r' % b)
            while True:
                i = ins[k]
                self.steps += 1
                op = i.op
                try:
                    if op == 'phi':
                        k += 1
                        continue
                    if op == 'call':
                        rs = self.call(s, i)
                        if not rs:
                            break
                        if len(rs) == 1:
                            s, v = rs[0]
                            if v is not None:
                                s.env[i] = v
                            k += 1
                            continue
                        for s2, v in rs:
                            if v is not None:
                                s2.env[i] = v
                            todo.append((s2, k + 1))
                        break
                    if op == 'br':
                        if len(i.succs) == 1:
                            outs.append(self.edge(s, b, i.succs[0]))
                            break
                        outs += self.branch(s, b, i)
                        break
                    if op == 'switch':
                        outs += self.switch(s, b, i)
                        break
                    if op == 'ret':
                        v = None
                        if i.ops:
                            v = self.val(s, i.ops[0])
                            if isinstance(v, Cnd):
                                v = self.term(s, i.ops[0])
                        rets.append((s, v, i))
                        self.stats['exits'] += 1
                        break
                    if op == 'unreachable':
                        break
                    self.exec(s, i)
                    k += 1
                except Split as x:
                    for s2 in x.states:
                        todo.append((s2, k))
                    break
        return outs, rets

    def leaves(self, b, i):
        """the loops a branch can leave"""
        out = []
        h = b.loop
        for h, body in b.func.loops.items():
            if b in body and any(t not in body for t in i.succs) and any(t in body for t in i.succs):
                out.append(h)
        return out

    def branch(self, s, b, i):
        c = self.val(s, i.ops[0])
        t, f = i.succs
        if isinstance(c, tm.Term):
            if not c.ts:
                return [self.edge(s, b, t if c.c else f)]
            c = Cnd('ne', c, tm.const(0, c.w))
        if c is UNKNOWN:
            s1, s2 = s.fork(), s.fork()
            s1.blur('branch on an unknown value'); s2.blur('branch on an unknown value')
            return [self.edge(s1, b, t), self.edge(s2, b, f)]
        self.hooks.branch(self, s, c, i)
        r = self.cmp(s, c.pred, c.a, c.b)
        if r is not None:
            return [self.edge(s, b, t if r else f)]
        ts, fs = self.assume(s, c, True), self.assume(s, c, False)
        out = []
        lv = self.leaves(b, i) if ts and fs else ()
        self.gidx += 1
        gid = self.gidx
        for lst, tgt, truth in ((ts, t, True), (fs, f, False)):
            for x in lst:
                if x is s:
                    x = s.fork()
                if ts and fs:
                    x.path = x.path + ((i.file, i.line, '%r is %s' % (c, truth)),) if len(x.path) < 60 else x.path
                    if c.secret:
                        x.gate = x.gate + ((gid, c, truth, s.cons),)
                for h in lv:
                    x.und = x.und | {h}
                out.append(self.edge(x, b, tgt))
        return out

    def switch(self, s, b, i):
        v = self.term(s, i.ops[0])
        if isinstance(v, tm.Term) and not v.ts:
            for c, t in i.cases:
                if c == v.c:
                    return [self.edge(s, b, t)]
            return [self.edge(s, b, i.succs[0])]
        out = []
        if not isinstance(v, tm.Term):
            for t in set(i.succs):
                x = s.fork()
                x.blur('switch on an unknown value')
                out.append(self.edge(x, b, t))
            return out
        rest = [s]
        self.hooks.branch(self, s, Cnd('eq', v, tm.const(0, v.w)), i)
        lv = self.leaves(b, i)
        for c, t in i.cases:
            cn = Cnd('eq', v, tm.const(c, v.w))
            nr = []
            for r in rest:
                for x in self.assume(r, cn, True):
                    x = x.fork()
                    for h in lv:
                        x.und = x.und | {h}
                    out.append(self.edge(x, b, t))
                nr += [y.fork() if y is r else y for y in self.assume(r, cn, False)]
            rest = nr
        for r in rest:
            for h in lv:
                r.und = r.und | {h}
            out.append(self.edge(r, b, i.succs[0]))
        return out

    # ---- loops
    def loop(self, f, head, body, states):
        self.stats['loops'] += 1
        exits, rets = [], []
        pending = list(states)
        seen = {}
        it = 0
        while pending:
            A = pending.pop(0)
            k = self.skey(A, head)
            # subsumed when its constraints imply those already explored
            if any(all(A.cons.entails(r) for r in o.rows) for o in seen.get(k, ())):
                continue
            seen.setdefault(k, []).append(A.cons)
            it += 1
            if it > self.unroll_cap:
                self.find(A, 'diverge', head.instrs[0], 'loop not left within %d iterations' % self.unroll_cap, exact=False)
                A.blur('loop cap')
                break
            A0 = A.fork()
            ck = (len(self.findings), len(self.notes))
            A.und = A.und - {head}
            e, r, bk = self.region(f, head, body, [(head, A)])
            und = [s for s in bk if head in s.und]
            if bk and und and self.general:
                g = self.generalise(f, head, body, A0, bk, ck)
                if g is not None:
                    e, r = g
                    exits += e
                    rets += r
                    continue
            exits += e
            rets += r
            for s in bk:
                s.und = s.und - {head}
                self.hooks.back(self, s, f, head)
            pending += self.merge(head, bk)
        for t, s in exits:
            s.und = s.und - {head}
        for s, v, i in rets:
            s.und = s.und - {head}
        return exits, rets

    def generalise(self, f, head, body, A, backs, ck):
        """an inductive invariant of the loop entered in state A; returns (exits, returns) or None"""
        def rollback(c):
            del self.findings[c[0]:]
            del self.notes[c[1]:]
        live = self.livein(f)[head]
        self.gidx += 1
        kat = tm.atom('sym', ('$it%d' % self.gidx,), 64, 0, (1 << 62))
        kt = tm.T(64, 0, ((kat, 1),))
        # template: location -> ('ind', v0, d) | ('hav',)
        tmpl, segt = {}, {}
        cands = set()
        # accumulators: locations that grow by the same varying amount in every iteration
        # share one unknown sum; gid -> (representative location, sum atom)
        accs = {}
        def place(s, loc):
            if loc[0] == 'e':
                return s.env.get(loc[1])
            if loc[0] == 'm':
                m = s.mem.get(loc[1])
                x = m.c.get(loc[2]) if isinstance(m, Cells) else None
                return x[1] if x else None
            return s.mon.get(loc[1])
        def classify_acc(loc, a, b, A, B):
            if not (isinstance(a, tm.Term) and isinstance(b, tm.Term) and a.w == b.w == 64):
                return False
            d = tm.sub(b, a)
            t = tmpl.get(loc)
            if t is not None and t[0] != 'acc':
                return False
            for g, (rl, sa, sgn0) in accs.items():
                ra, rb = place(A, rl), place(B, rl)
                if not isinstance(ra, tm.Term) or not isinstance(rb, tm.Term):
                    continue
                rd = tm.sub(rb, ra)
                for sg, x in ((1, rd), (-1, tm.neg(rd))):
                    if x == d:
                        if t is None:
                            tmpl[loc] = ('acc', g, sg)
                            return True
                        return t[1] == g and t[2] == sg
            if t is not None or len(accs) >= 4 or not d.ts:
                return False
            g = 'g%d' % len(accs)
            sa = tm.atom('sym', ('$sum%d%s' % (self.gidx, g),), 64, 0, tm.MASKS[64])
            accs[g] = (loc, sa, 1)
            tmpl[loc] = ('acc', g, 1)
            return True
        def classify(loc, a, b, A=None, B=None):
            if tmpl.get(loc) == ('hav',):
                return
            if A is not None and (tmpl.get(loc) or ('',))[0] == 'acc':
                if not classify_acc(loc, a, b, A, B):
                    tmpl[loc] = ('hav',)
                return
            if a == b:
                return
            if isinstance(a, tm.Term) and isinstance(b, tm.Term) and a.w == b.w:
                d = tm.sub(b, a)
                if not d.ts and loc not in tmpl:
                    tmpl[loc] = ('ind', tm.sgn(d.c, d.w))
                    return
                if A is not None and loc not in tmpl and classify_acc(loc, a, b, A, B):
                    return
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid == b.oid and loc not in tmpl:
                d = esub(b.off, a.off)
                if econst(d):
                    tmpl[loc] = ('ind', d[0])
                    return
            tmpl[loc] = ('hav',)
        def locs(s):
            for v in live:
                yield ('e', v), s.env.get(v)
        def scan(A, B):
            for v in live:
                classify(('e', v), A.env.get(v), B.env.get(v), A, B)
            for o in A.mem:
                if o not in B.mem:
                    continue
                ma, mb = A.mem[o], B.mem[o]
                if same_mem(B.cons, ma, mb, self.objs[o].size):
                    continue
                if isinstance(ma, Cells) and isinstance(mb, Cells) and ma.gap == mb.gap and {k: v[0] for k, v in ma.c.items()} == {k: v[0] for k, v in mb.c.items()}:
                    for k in ma.c:
                        classify(('m', o, k), ma.c[k][1], mb.c[k][1], A, B)
                    continue
                if o not in segt:
                    segt[o] = 'new'
            for k in set(A.mon) | set(B.mon):
                a, b = A.mon.get(k), B.mon.get(k)
                if a != b and not k.startswith('$'):
                    classify(('x', k), a, b, A, B)
        for B in backs:
            scan(A, B)
        def inst(k, sums=None):
            """state A generalised to iteration k (a Term), with the given sums"""
            G = A.fork()
            ke = term_e(dom.EMPTY, k)
            sub = {}
            for loc, t in tmpl.items():
                if loc[0] == 'e':
                    a = A.env.get(loc[1])
                elif loc[0] == 'm':
                    a = A.mem[loc[1]].c[loc[2]][1]
                else:
                    a = A.mon.get(loc[1])
                if t[0] == 'acc':
                    s = sums[t[1]] if sums is not None else tm.T(64, 0, ((accs[t[1]][1], 1),))
                    v = tm.add(a, s) if t[2] > 0 else tm.sub(a, s)
                elif t[0] == 'ind':
                    if isinstance(a, Ptr):
                        v = Ptr(a.oid, eadd(a.off, ke, t[1]))
                    else:
                        kk = k if a.w == 64 else (tm.trunc(k, a.w) if a.w < 64 else k)
                        v = tm.add(a, tm.mulc(kk, t[1])) if a.w >= 64 else self.narrow(a, ke, t[1])
                else:
                    v = hav(loc, a)
                if loc[0] == 'e':
                    G.env[loc[1]] = v
                elif loc[0] == 'm':
                    m = G.mem[loc[1]]
                    c = dict(m.c)
                    c[loc[2]] = (c[loc[2]][0], v)
                    G.mem[loc[1]] = Cells(c, m.gap)
                else:
                    G.mon[loc[1]] = v
            return G
        hv = {}
        def hav(loc, a):
            if loc not in hv:
                if isinstance(a, tm.Term):
                    hv[loc] = tm.fresh('loop', a.w, secret=True if a.secret else False, exact=False)
                elif hasattr(a, 'widen'):
                    hv[loc] = a.widen()
                elif isinstance(a, (str, int, tuple, frozenset)) or a is None:
                    hv[loc] = '?' if loc[0] == 'x' else UNKNOWN
                else:
                    hv[loc] = UNKNOWN
            return hv[loc]
        segpat = {}
        for rnd in range(14):
            G = inst(kt)
            c = G.cons.add(ea(kat))
            # segment templates
            bad = False
            for o in segt:
                if segt[o] == 'top':
                    G.mem[o] = Cells({}, self.topof(A, backs, o))
                elif segt[o] == 'new':
                    # discover the growth pattern from the first iteration
                    p = self.growth(A, backs, o)
                    if p is None:
                        segt[o] = 'top'
                        G.mem[o] = Cells({}, self.topof(A, backs, o))
                    else:
                        segt[o] = p + (None,)
                        G.mem[o] = self.grown(G, A, o, segt[o], kat)
                else:
                    G.mem[o] = self.grown(G, A, o, segt[o], kat)
                if G.mem[o] is None:
                    segt[o] = 'top'
                    G.mem[o] = Cells({}, self.topof(A, backs, o))
            if rnd == 0:
                # candidate bounds from the guards of the first iteration
                cands = self.candidates(A, backs, tmpl, kat, G)
                for g, (rl, sa, _) in accs.items():
                    for B in backs:
                        d = tm.sub(place(B, rl), place(A, rl))
                        for r in B.cons.rows:
                            if r in A.cons.rows:
                                continue
                            xs = [eadd(r, ea(sa), 1), eadd(r, ea(sa), -1), eaddc(eadd(r, ea(sa), -1), 1)]
                            if len(d.ts) == 1 and d.ts[0][1] == 1 and d.c == 0:
                                xs.append(dom.esubst(r, {d.ts[0][0]: ea(sa)}))
                            for x in xs:
                                x = dom.tighten(x)
                                if x is None or x is False or not any(q is sa for q, _ in x[1]):
                                    continue
                                if A.cons.entails(dom.esubst(x, {sa: ZERO})):
                                    cands.add(x)
            for e in cands:
                if c is not None:
                    c2 = c.add(e)
                    c = c2 if c2 is not None else c
            G.cons = c
            G0 = G.fork()
            G.und = G.und - {head}
            rollback(ck)
            ev0 = G.ev
            G.event('loop', f.name, head.idx)
            e, r, bk = self.region(f, head, body, [(head, G)])
            changed = False
            k1 = tm.add(kt, tm.const(1, 64))
            for B in bk:
                sums, nxt = {}, {kat: eaddc(ea(kat), 1)}
                for g, (rl, sa, _) in accs.items():
                    # what this iteration added to the representative
                    x, y = place(G0, rl), place(B, rl)
                    s0 = tm.T(64, 0, ((sa, 1),))
                    d = tm.sub(y, x) if isinstance(x, tm.Term) and isinstance(y, tm.Term) else None
                    de = term_e(B.cons, d) if d is not None else None
                    sums[g] = tm.add(s0, d) if d is not None else tm.fresh('sum', 64, exact=False)
                    if de is not None and B.cons.entails(de) and B.cons.entails(esub(ec(tm.MASKS[64]), eadd(ea(sa), de))):
                        nxt[sa] = eadd(ea(sa), de)
                N = inst(k1, sums)
                for v in live:
                    x, y = N.env.get(v), B.env.get(v)
                    if not self.same(B, x, y):
                        changed = weaken(tmpl, ('e', v), x, y, A.env.get(v), G0.env.get(v)) or changed
                for o in A.mem:
                    if o not in B.mem:
                        continue
                    if o in segt:
                        if segt[o] == 'top':
                            continue
                        s2 = self.check_grown(B, A, o, segt[o], kat, k1)
                        if s2 is True:
                            continue
                        segt[o] = s2 if s2 is not None else 'top'
                        changed = True
                        continue
                    ma, mb = N.mem[o], B.mem[o]
                    if same_mem(B.cons, ma, mb, self.objs[o].size):
                        continue
                    if isinstance(ma, Cells) and isinstance(mb, Cells) and ma.gap == mb.gap and {q: z[0] for q, z in ma.c.items()} == {q: z[0] for q, z in mb.c.items()}:
                        for q in ma.c:
                            if not self.same(B, ma.c[q][1], mb.c[q][1]):
                                changed = weaken(tmpl, ('m', o, q), ma.c[q][1], mb.c[q][1], A.mem[o].c[q][1], G0.mem[o].c[q][1]) or changed
                    else:
                        segt[o] = 'new' if rnd < 3 else 'top'
                        # pattern from this iteration
                        segt[o] = 'top' if self.growth(G0, [B], o) is None else segt[o]
                        changed = True
                for q in set(N.mon) | set(B.mon):
                    if q.startswith('$'):
                        continue
                    x, y = N.mon.get(q), B.mon.get(q)
                    if x != y and not self.same(B, x, y):
                        changed = weaken(tmpl, ('x', q), x, y, A.mon.get(q), G0.mon.get(q)) or changed
                # candidates must be preserved
                drop = set()
                for ce in cands:
                    if any(v[1] not in nxt and any(q is v[1] for q, _ in ce[1]) for v in accs.values()):
                        drop.add(ce)
                        continue
                    nx = dom.esubst(ce, nxt)
                    if not B.cons.entails(nx):
                        drop.add(ce)
                if drop:
                    cands = cands - drop
                    changed = True
            if not changed:
                self.lastG = G0
                self.loop_atom = kat
                # objects created in the body and still live at the back edge are lost track of
                for B in bk:
                    for o in B.live:
                        if o not in A.live and B.live[o] == 'live' and self.objs[o].kind == 'heap':
                            self.loop_alloc(B, o, head)
                self.loop_exits = (e, r)
                self.loop_done(f, head, A, G0, bk, tmpl)
                return e, r
        rollback(ck)
        self.note('loop at %s:%s not generalised' % (head.instrs[0].file, head.instrs[0].line))
        return None

    def loop_alloc(self, B, o, head):
        self.note('allocation %s survives an iteration of the loop at line %s' % (self.objs[o].name, head.instrs[-1].line))

    def loop_done(self, f, head, A, G, backs, tmpl):
        h = getattr(self.hooks, 'loop_done', None)
        if h:
            h(self, f, head, A, G, backs, tmpl)

    def narrow(self, a, ke, d):
        """value a + d*k of a type narrower than k"""
        e = tm.nowrap(a)
        if e is None:
            return tm.add(a, toterm(emul(ke, d), a.w))
        x = eadd((e[0], tuple(sorted(e[1], key=lambda q: q[0].id))), ke, d)
        return toterm(x, a.w)

    def same(self, st, x, y):
        if x == y:
            return True
        if isinstance(x, tm.Term) and isinstance(y, tm.Term) and x.w == y.w:
            e, g = term_e(st.cons, x), term_e(st.cons, y)
            if e is not None and g is not None and st.cons.entails_eq(esub(e, g)):
                return True
            if not x.secret and not y.secret:
                return False
            return False
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.oid == y.oid:
            return st.cons.entails_eq(esub(x.off, y.off))
        return False

    def candidates(self, A, backs, tmpl, kat, G):
        """bounds that hold at iteration 0 and may be inductive"""
        c0 = A.cons
        out = set()
        ke = ea(kat)
        ind = []
        for loc, t in tmpl.items():
            if t[0] != 'ind':
                continue
            v = G.env.get(loc[1]) if loc[0] == 'e' else (G.mem[loc[1]].c[loc[2]][1] if loc[0] == 'm' else G.mon.get(loc[1]))
            a = A.env.get(loc[1]) if loc[0] == 'e' else (A.mem[loc[1]].c[loc[2]][1] if loc[0] == 'm' else A.mon.get(loc[1]))
            if isinstance(v, Ptr):
                e = v.off
                o = self.objs[v.oid]
                out.add(e)
                if o.size is not None:
                    out.add(esub(o.size, e))
            elif isinstance(v, tm.Term):
                ea0 = term_e(A.cons, a)
                if ea0 is None:
                    continue
                e = eadd(ea0, ke, t[1])
                out.add(e)
                out.add(esub(ec(tm.MASKS[v.w]), e))
                out.add(esub(ec(tm.MASKS[v.w] >> 1), e))
                ind.append((ea0, t[1]))
        # guards: constraints the first iteration added, shifted back by one iteration
        steps = {}
        for B in backs:
            for r in B.cons.rows:
                if r in A.cons.rows:
                    continue
                # r holds at k=0 of values v0; at iteration k the guard reads r with v0 -> v0 + d*k
                g = self.shift_guard(r, ind, ke)
                for x in g:
                    out.add(dom.esubst(x, {kat: eaddc(ea(kat), -1)}))
                    out.add(x)
        good = set()
        for e in out:
            e = dom.tighten(e)
            if e is None or e is False:
                continue
            e0 = dom.esubst(e, {kat: ZERO})
            if c0.entails(e0):
                good.add(e)
        return good

    def shift_guard(self, r, ind, ke):
        """possible generalisations of a guard to iteration k"""
        out = []
        # guard over a single induction value: r = s*(v0) + rest
        for v0, d in ind:
            for s in (1, -1):
                out.append(eadd(r, emul(ke, d), s))
        # constants: values whose v0 is constant are invisible in r; the same shifts cover them
        return out

    def topof(self, A, backs, o):
        return TOPS if any(holds_secret(X.mem[o]) for X in [A] + backs if o in X.mem) else TOP

    # growth of array contents
    def growth(self, A, backs, o):
        """(p0, d): the first iteration overwrites [p0, p0+d) of object o"""
        size = self.objs[o].size
        sa = to_segs(A.mem[o], size).s
        res = None
        for B in backs:
            sb = to_segs(B.mem[o], size).s
            try:
                na, nb = norm(B.cons, sa), norm(B.cons, sb)
            except NeedSplit:
                return None
            # common prefix
            i = 0
            while i < len(na) and i < len(nb) and na[i] == nb[i]:
                i += 1
            if i >= len(na) or i >= len(nb):
                return None
            lo = na[i][0]
            # a partially overwritten segment: the same kind up to a later bound
            if nb[i][2] == na[i][2] and nb[i][0] == lo:
                lo = nb[i][1]
            j = 0
            while j < len(na) - i and j < len(nb) - i and na[-1 - j] == nb[-1 - j]:
                j += 1
            if len(na) - 1 - j < 0:
                return None
            hi = na[len(na) - 1 - j][1]
            if nb[len(nb) - 1 - j][2] == na[len(na) - 1 - j][2] and nb[len(nb) - 1 - j][1] == hi:
                hi = nb[len(nb) - 1 - j][0]
            d = esub(hi, lo)
            if not econst(d) or not (0 < d[0] <= 8):
                return None
            if res is not None and res != (lo, d[0]):
                return None
            res = (lo, d[0])
        return res

    def grown(self, G, A, o, pat, kat):
        lo, d, kind = pat
        hi = eadd(lo, ea(kat), d)
        c = G.cons.add(ea(kat)) or G.cons
        size = self.objs[o].size
        # bound assumed for building the content: stays within the object
        if size is not None:
            c2 = c.add(esub(size, hi))
            c = c2 if c2 is not None else c
        m = to_segs(A.mem[o], size)
        try:
            return put(c, m, lo, hi, [(lo, hi, kind if kind is not None else ('top',))], self.big)
        except NeedSplit:
            return None

    def check_grown(self, B, A, o, pat, kat, k1):
        """True when the template holds again one iteration later; otherwise a better template or None"""
        lo, d, kind = pat
        size = self.objs[o].size
        segs = to_segs(B.mem[o], size).s
        base = eadd(lo, ea(kat), d)
        try:
            new = extract(B.cons, Segs(segs), base, eaddc(base, d), self.big)
        except NeedSplit:
            return None
        # the terms written in iteration k, as functions of k
        terms = []
        for j in range(d):
            b, prob = read_byte(B.cons, Segs(segs), eaddc(base, j), 1, self.big)
            if not isinstance(b, tm.Term):
                return None
            terms.append(subst_term(b, {kat: K}))
        if any(kat in tm.atoms_of(t) for t in terms):
            return None
        if d == 1:
            nk = fn(substk(terms[0], esub(ea(KATOM), lo))) if terms[0].ts else fill(terms[0])
        else:
            nk = ('it', lo, d, tuple(terms))
        if kind is None:
            return (lo, d, nk)
        if kind != nk:
            return None
        # the rest must be untouched
        try:
            want = put(B.cons, to_segs(A.mem[o], size), lo, eaddc(base, d), [(lo, eaddc(base, d), kind)], self.big)
            got = put(B.cons, Segs(segs), base, eaddc(base, d), [(base, eaddc(base, d), kind)], self.big)
        except NeedSplit:
            return None
        if norm(B.cons, want.s) == norm(B.cons, got.s):
            return True
        return None

def weaken(tmpl, loc, x, y, a, g):
    """the template of loc failed"""
    if loc in tmpl:
        if tmpl[loc] == ('hav',):
            return False
        tmpl[loc] = ('hav',)
        return True
    if isinstance(x, tm.Term) and isinstance(y, tm.Term) and x.w == y.w:
        d = tm.sub(y, x)
        if not d.ts:
            tmpl[loc] = ('ind', tm.sgn(d.c, d.w))
            return True
    tmpl[loc] = ('hav',)
    return True

def sel(c, a, b):
    if a is b:
        return a
    w = a.w
    lo = min(tm.irange(a)[0], tm.irange(b)[0]); hi = max(tm.irange(a)[1], tm.irange(b)[1])
    return tm.opq('sel', (c.pred, c.a, c.b, a, b), w, lo, hi)

def binop(op, a, b):
    w = a.w
    if op == 'add':
        return tm.add(a, b)
    if op == 'sub':
        return tm.sub(a, b)
    if op == 'mul':
        return tm.mul(a, b)
    if op == 'xor':
        return tm.xor(a, b)
    if op == 'and':
        return tm.and_(a, b)
    if op == 'or':
        return tm.or_(a, b)
    if op == 'shl' and not b.ts:
        return tm.shl(a, b.c)
    if op == 'lshr' and not b.ts:
        return tm.lshr(a, b.c)
    if op == 'ashr' and not b.ts:
        return tm.ashr(a, b.c)
    if op in ('udiv', 'urem') and not b.ts and b.c:
        if not a.ts:
            return tm.const(a.c // b.c if op == 'udiv' else a.c % b.c, w)
        if b.c & (b.c - 1) == 0:
            n = b.c.bit_length() - 1
            return tm.lshr(a, n) if op == 'udiv' else tm.and_(a, tm.const(b.c - 1, w))
        lo, hi = tm.irange(a)
        return tm.opq(op, (a, b), w, lo // b.c if op == 'udiv' else 0, hi // b.c if op == 'udiv' else min(hi, b.c - 1))
    if op in ('sdiv', 'srem') and not a.ts and not b.ts and b.c:
        x, y = tm.sgn(a.c, w), tm.sgn(b.c, w)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return tm.const(q if op == 'sdiv' else x - q * y, w)
    return tm.opq(op, (a, b), w)
