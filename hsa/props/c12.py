"""Effect and representation analysis of the caller's inputs. (1) On every path of every entry
point the objects behind the key and message arguments are never written, are only loaded in
units of one byte (or copied as byte ranges), and no object that outlives the call holds a
pointer to them. (2) The value computed is compared between targets: compressed words, padded
tail, retained bytes and the sequences HMAC hashes are computed symbolically for little- and
big-endian, 32- and 64-bit targets and must be the same terms over the input bytes."""
from ..entry import *

LEVEL = 'proof'
ASSUMPTIONS = ['target comparison: one block, every sixteenth retained length and the boundary ones']
CONCRETE = True
MINIMUM = {'bytewise access': 5 * 2 * 4, 'inputs unchanged': 5 * 2 * 5, 'not retained': 5 * 2 * 20, 'same on every target': 5 * 3 * 8}
TARGETS = ['fb', 'fbr', 'le32', 'be64', 'be64r', 'be32r']

def configs(tier):
    return ['fb', 'fbr'] if tier == 'quick' else BUILTIN_ALL

def targets(tier):
    return ['fb', 'le32', 'be64', 'be32r'] if tier == 'quick' else TARGETS

def prepare(tier):
    for c in set(configs(tier)) | set(targets(tier)):
        build.compile_all(c, 'lib')

def tasks(tier):
    t = [('%s targets' % a, compare, (a, tuple(targets(tier)))) for a in ('sha512', 'sha256', 'sha224', 'sha1', 'md5')]
    return t + std_tasks(entry, configs(tier))

class Acc(Hooks):
    def __init__(self, R, cfg):
        self.R, self.cfg, self.inputs, self.seen = R, cfg, (), set()
    def load(self, I, st, p, n, ins):
        if not isinstance(p, Ptr) or p.oid not in self.inputs:
            return
        if n == 1:
            self.R.ok('bytewise access')
        elif ins not in self.seen:
            self.seen.add(ins)
            self.R.bad('bytewise access', ins.file, ins.line, ins.block.func.name, '%s is accessed in units of %d bytes, which depends on byte order and alignment [%s]' % (I.objs[p.oid].name, n, self.cfg), st.fuzzy is None, st.path)
    def range_read(self, I, st, p, n, ins):
        if isinstance(p, Ptr) and p.oid in self.inputs:
            self.R.ok('bytewise access')

def entry(R, cfg, alg, names):
    L = Lib(cfg, alg)
    E, names = entry_names(L, names)
    for n in names:
        hk = Acc(R, cfg)
        def setup(I, st, sc):
            hk.inputs = {p.oid for p in getattr(sc, 'inputs', ())}
        I, sc, outs = E.run(n, hooks=hk, hash_lo=0, setup=setup)
        R.absorb(I)
        bad = [F for F in I.findings if F.kind == 'rowrite']
        for F in bad:
            R.finding('inputs unchanged', F)
        if hk.inputs and not bad:
            R.ok('inputs unchanged')
        for s, v in outs:
            for p in getattr(sc, 'inputs', ()):
                keep = []
                for o, m in s.mem.items():
                    if s.live.get(o) != 'live' or I.objs[o].kind in ('stack', 'error') or o == p.oid:
                        continue
                    vs = [x for _, x in m.c.values()] if isinstance(m, Cells) else [k[1] for _, _, k in m.s if k[0] == 'v']
                    if any(isinstance(x, Ptr) and x.oid == p.oid for x in vs):
                        keep.append(I.objs[o].name)
                R.check('not retained', not keep, sc.f, 'a pointer to %s is kept in %s after the call [%s]' % (I.objs[p.oid].name, ', '.join(keep), cfg), exact=s.fuzzy is None, path=s.path)

# ---- the same function of the bytes on every target
def transform_words(L):
    I = L.interp()
    st = State()
    ctx, bo, hc, H, stream = L.context(I, st, plain=True, hc=tm.const(0, 64), bo=tm.const(0, L.pw))
    buf = L.input(I, st, L.A.block, 'buffer', Seqs.get('buf'))
    f = L.f('context_transform')
    outs = I.run(f, [ctx, buf, tm.const(L.A.block, L.pw), L.error_arg(I, st)], st)
    return f, I, [(s, ctx_terms(I, L, s, ctx, 'hash_values', L.A.word)) for s, v in outs if not s.mon.get('failed')]

def final_bytes(L, bo):
    f = L.f('context_finalize')
    def absorb(I, s, ctx, buf, m, c):
        if not econst(m):
            s.mon['bytes'] = None
        elif s.mon.get('bytes', ()) is not None:
            s.mon['bytes'] = s.mon.get('bytes', ()) + bytes_of(I, s, content(I, s, buf, buf.off, eadd(buf.off, m)), buf.off, m[0])
    I = L.interp(transform_contract(L, absorb, fail=False))
    I.fault_primitives = False
    st = State()
    hc = tm.mulc(tm.sym('blocks', 64, 0, (1 << 60) // L.A.block - 1), L.A.block)
    ctx, b, hc, H, stream = L.context(I, st, bo=tm.const(bo, L.pw), hc=hc, stream=Seqs.get('stream'))
    out = I.new(st, 'arg', 'hash', L.A.digest)
    outs = I.run(f, [ctx, out, tm.const(L.A.digest, L.pw), L.error_arg(I, st)], st)
    r = []
    for s, v in outs:
        if s.mon.get('failed'):
            continue
        b = s.mon.get('bytes', ())
        d = [(read_cells(s.mem[out.oid], i, 1, I.big) if isinstance(s.mem[out.oid], Cells) else read_segs(s.cons, s.mem[out.oid], ec(i), 1, I.big))[0] for i in range(L.A.digest)]
        r.append((s, None if b is None else list(b) + d))
    return f, I, r

def update_bytes(L, bo, n):
    f = L.f('context_update')
    def absorb(I, s, ctx, buf, m, c):
        if not econst(m):
            s.mon['bytes'] = None
        elif s.mon.get('bytes', ()) is not None:
            s.mon['bytes'] = s.mon.get('bytes', ()) + bytes_of(I, s, content(I, s, buf, buf.off, eadd(buf.off, m)), buf.off, m[0])
    I = L.interp(transform_contract(L, absorb, fail=False))
    I.fault_primitives = False
    st = State()
    ctx, b, hc, H, stream = L.context(I, st, bo=tm.const(bo, L.pw), hc=tm.const(0, 64), stream=Seqs.get('stream'))
    buf = L.input(I, st, n, 'buffer', Seqs.get('buf'))
    outs = I.run(f, [ctx, buf, tm.const(n, L.pw), L.error_arg(I, st)], st)
    o = L.field('block')[0]
    r = []
    for s, v in outs:
        if s.mon.get('failed'):
            continue
        b = s.mon.get('bytes', ())
        rest = (bo + n) % L.A.block
        m = s.mem[ctx.oid]
        k = [(read_cells(m, o + i, 1, I.big) if isinstance(m, Cells) else read_segs(s.cons, m, ec(o + i), 1, I.big))[0] for i in range(rest)]
        r.append((s, None if b is None else list(b) + k))
    return f, I, r

class Seqs:
    _d = {}
    @classmethod
    def get(cls, n):
        if n not in cls._d:
            cls._d[n] = Seq(n.upper())
        return cls._d[n]

def compare(R, alg, targets):
    A = spec.ALGS[alg]
    B = A.block
    lens = sorted({0, 1, B - A.lenbytes - 1, B - A.lenbytes, B - 1} | set(range(5, B, 16)))
    jobs = [('one compressed block', transform_words, ())]
    jobs += [('the padded tail and digest for %d retained bytes' % b, final_bytes, (b,)) for b in lens]
    jobs += [('an update of %d bytes after %d' % (n, b), update_bytes, (b, n)) for b, n in ((0, 7), (3, B + 5), (B - 1, 1), (5, 3 * B))]
    libs = [Lib(c, alg) for c in targets]
    for what, fn, args in jobs:
        base = None
        for L in libs:
            f, I, outs = fn(L, *args)
            R.absorb(I)
            outs = [(s, g) for s, g in outs if g is not None and all(isinstance(x, tm.Term) for x in g)]
            if len(outs) != 1:
                R.und('same on every target', '%s: %s on %s: %d outcomes' % (f.name, what, L.cfg, len(outs)))
                continue
            s, g = outs[0]
            if base is None:
                base = (L.cfg, g)
                continue
            r, msg = True, ''
            if len(g) != len(base[1]):
                r, msg = False, '%d values instead of %d' % (len(g), len(base[1]))
            else:
                for i, (x, y) in enumerate(zip(g, base[1])):
                    q = same(x, y)
                    if q is not True:
                        r, msg = q, 'value %d is %s, on %s it is %s' % (i, show_t(x), base[0], show_t(y))
                        break
            R.check('same on every target', r, f, '%s differs between targets %s and %s: %s' % (what, base[0], L.cfg, msg), exact=s.fuzzy is None, sample='%s: %s identical on %s and %s' % (f.name, what, base[0], L.cfg))
