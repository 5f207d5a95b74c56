"""Taint dataflow with strong updates: bytes derived from the key, the message or the
chaining state are tracked through every array; at every return of every function on every
path (including those where a step failed) no array of the frame may still hold such bytes,
no heap block or context may hold them when it is released, and a finalised context holds
none."""
from ..entry import *

LEVEL = 'proof'
ASSUMPTIONS = ['arrays and other addressed objects of the source; registers, scalar locals and what an optimiser keeps or removes are outside (C30)']
CONCRETE = True
MINIMUM = {'stack wiped': 5 * 2 * 10, 'released memory wiped': 5 * 2 * 5, 'finalised context wiped': 5 * 2}

def configs(tier):
    return ['fb', 'fbr', 'le32'] if tier == 'quick' else BUILTIN_ALL

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    return std_tasks(entry, configs(tier)) + [('%s %s short keys' % (a, configs(tier)[0]), shortkeys, (configs(tier)[0], a)) for a in ALGS]

class Wipe(Hooks):
    def __init__(self, R, cfg):
        self.R, self.cfg = R, cfg
    def frame_exit(self, I, st, oids, fn):
        for o in oids:
            if o not in st.mem:
                continue
            ob = I.objs[o]
            if not holds_secret(st.mem[o]):
                self.R.ok('stack wiped', sample='%s: %s' % (fn.name, ob.name))
                continue
            why = st.mon.get('failed')
            cond = 'after %s failed' % why[-1][0] if why else 'on the path without failures'
            self.R.bad('stack wiped', fn.file, why[-1][1] if why and why[-1][1] else fn.line, fn.name, 'array %s still holds secret data on return %s [%s]' % (ob.name, cond, self.cfg), st.fuzzy is None, st.path + (where(st, o, ob),))
    def free(self, I, st, oid, ins):
        ob = I.objs[oid]
        if holds_secret(st.mem[oid]) if oid in st.mem else False:
            why = st.mon.get('failed')
            cond = 'after %s failed' % why[-1][0] if why else 'on the path without failures'
            f = ins.block.func
            self.R.bad('released memory wiped', ins.file, ins.line, f.name, '%s is released while it holds secret data, %s [%s]' % (ob.name.split('@')[0], cond, self.cfg), st.fuzzy is None, st.path + (where(st, oid, ob),))
        else:
            self.R.ok('released memory wiped', sample='%s line %s: %s' % (ins.block.func.name, ins.line, ob.name))

def where(st, o, ob):
    segs = to_segs(st.mem[o], ob.size).s
    return 'secret bytes at ' + ', '.join('%s..%s' % (dom.eshow(l), dom.eshow(h)) for l, h, k in segs if holds_secret(Segs([(l, h, k)])))[:200]

def entry(R, cfg, alg, names):
    L = Lib(cfg, alg)
    E, names = entry_names(L, names)
    for n in names:
        one(R, L, E, cfg, n)

def shortkeys(R, cfg, alg):
    """keys that fit the block: no hashing of the key"""
    L = Lib(cfg, alg)
    E = Entry(L)
    for ks in (0, 1, L.A.digest, L.A.block - 1, L.A.block):
        one(R, L, E, cfg, 'calculate_hmac', key=tm.const(ks, L.pw))

def one(R, L, E, cfg, n, **kw):
    I, sc, outs = E.run(n, hooks=Wipe(R, cfg), hash_lo=L.A.digest, **kw)
    R.absorb(I)
    if sc.what == 'finalize' and n.startswith('context_'):
        for s, v in outs:
            if ret_is(v, 1) and sc.ctx is not None and sc.ctx.oid in s.mem:
                h = holds_secret(s.mem[sc.ctx.oid])
                R.check('finalised context wiped', not h, sc.f, 'the context still holds secret data after finalisation [%s]' % cfg, exact=s.fuzzy is None, path=s.path + ((where(s, sc.ctx.oid, I.objs[sc.ctx.oid]),) if h else ()))
