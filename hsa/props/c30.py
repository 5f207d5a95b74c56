"""Wiping that a compiler may not remove, decided on the unoptimised IR with the taint dataflow of
C10: for every array of a frame and every heap block that held secret data and is clean at the end
of its life, the operation that cleaned it must be one a conforming compiler has to keep - a call
by a volatile function pointer, a function defined outside the translation unit or documented not
to be removed, volatile stores, or a clearing followed by a compiler barrier. A direct memset or
ordinary stores to memory that is not read afterwards are dead stores, which gcc and clang remove
with -O1 and up."""
from .c10 import *

LEVEL = 'proof'
ASSUMPTIONS = ['the memory functions are the only library functions a compiler may reason about', 'no optimisation across translation units', 'arrays and other addressed objects of the source; copies in registers and spill slots are outside']
CONCRETE = True
MINIMUM = {'clearing of the stack kept': 5 * 10, 'clearing of released memory kept': 5 * 4}
FILL = {'memset', 'bzero', '__builtin_memset', '__memset_chk'}
KEPT = {'explicit_bzero', 'OPENSSL_cleanse', 'memset_s', 'memset_explicit', 'SecureZeroMemory', 'explicit_memset'}

def configs(tier):
    return ['fb', 'fbr', 'evp'] if tier == 'quick' else BUILTIN_ALL + ['ossl', 'evp', 'evp1', 'evpold']

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    b = [c for c in configs(tier) if c in BUILTIN_ALL]
    return std_tasks(entry, b) + [('%s %s short keys' % (a, b[0]), shortkeys, (b[0], a)) for a in ALGS]

def name_of(I, ins):
    c = ins.callee
    if isinstance(c, ir.GRef):
        return c.name
    return None

def kept(ins, name):
    """whether the compiler has to keep this clearing: True, False, None when not known"""
    if name in KEPT or ins.flags & 4:
        return True
    if isinstance(ins.callee, ir.Instr):
        return True if ins.callee.op == 'load' and ins.callee.flags & 2 else None
    return False if name in FILL or name.startswith('llvm.memset') else None

class Kept(Hooks):
    def __init__(self, R, cfg):
        self.R, self.cfg, self.seen = R, cfg, set()
    def rec(self, st, oid, kind, ins):
        d = dict(st.mon.get('$wipe', ()))
        d[oid] = d.get(oid, ()) + ((kind, ins),)
        st.mon['$wipe'] = tuple(sorted(d.items()))
    def secret_now(self, st, oid):
        return oid in st.mem and holds_secret(st.mem[oid])
    def range_write(self, I, st, p, n, ins):
        if not isinstance(p, Ptr) or ins is None or ins.op != 'call' or I.objs[p.oid].kind not in ('stack', 'heap', 'ctx'):
            return
        name = name_of(I, ins)
        if name is None and not isinstance(ins.callee, ir.Instr):
            return
        if isinstance(ins.callee, ir.GRef) and not (name in FILL or name in KEPT or name.startswith('llvm.memset')):
            return
        if self.secret_now(st, p.oid):
            self.rec(st, p.oid, kept(ins, name or ''), ins)
    def store(self, I, st, p, n, v, ins):
        if not isinstance(p, Ptr) or ins is None or ins.op != 'store' or I.objs[p.oid].kind not in ('stack', 'heap', 'ctx'):
            return
        if isinstance(v, tm.Term) and not v.ts and v.c == 0 and self.secret_now(st, p.oid):
            d = dict(st.mon.get('$wipe', ()))
            x = ('volatile' if ins.flags & 2 else 'store', ins)
            if x not in d.get(p.oid, ()):
                self.rec(st, p.oid, *x)
    def barrier(self, I, st, args, ins):
        # memory that was cleared before must be cleared at this point
        d = dict(st.mon.get('$wipe', ()))
        st.mon['$wipe'] = tuple(sorted((o, tuple((True if k in (False, 'store') else k, i) for k, i in l)) for o, l in d.items()))
    def frame_exit(self, I, st, oids, fn):
        for o in oids:
            self.ended(I, st, o, fn, None)
    def free(self, I, st, oid, ins):
        self.ended(I, st, oid, ins.block.func, ins)
    def ended(self, I, st, oid, fn, ins):
        rule = 'clearing of the stack kept' if ins is None else 'clearing of released memory kept'
        w = dict(st.mon.get('$wipe', ())).get(oid, ())
        if not w or self.secret_now(st, oid):
            return      # never held secrets, or not wiped at all (C10)
        ob = I.objs[oid]
        kinds = {k for k, i in w}
        for k, i in w:
            g = i.block.func
            if k == 'store':
                # ordinary stores matter only when nothing else cleared the object
                bad = kinds == {'store'}
            elif k is False:
                bad = True
            else:
                bad = False
            near = g.module is fn.module and (ins is None or g is fn or g.internal)
            if bad and near:
                if i not in self.seen:
                    self.seen.add(i)
                    how = 'an ordinary %s' % ('store' if k == 'store' else 'call of %s' % (name_of(I, i) or 'memset'))
                    self.R.bad(rule, i.file, i.line, g.name, '%s is cleared by %s just before it is given up, which compilers remove as a dead store [%s]' % (ob.name.split('@')[0], how, self.cfg), st.fuzzy is None, st.path)
            else:
                self.R.ok(rule, sample='%s line %s: %s' % (g.name, i.line, ob.name))

def entry(R, cfg, alg, names):
    L = Lib(cfg, alg)
    E, names = entry_names(L, names)
    for n in names:
        I, sc, outs = E.run(n, hooks=Kept(R, cfg), hash_lo=L.A.digest)
        R.absorb(I)

def shortkeys(R, cfg, alg):
    L = Lib(cfg, alg)
    E = Entry(L)
    for ks in (0, 1, L.A.digest, L.A.block - 1, L.A.block):
        I, sc, outs = E.run('calculate_hmac', hooks=Kept(R, cfg), hash_lo=L.A.digest, key=tm.const(ks, L.pw))
        R.absorb(I)
