"""Value-numbering equivalence of the block transform with the published compression
function: the transform is interpreted abstractly with the chaining words and the message
bytes as symbols; the word expressions left in the context are brought to the same normal
form as the reference definition (FIPS 180-4, RFC 1321, round constants recomputed from
their definitions) and compared, for every run of 0 to 3 blocks with any tail and, through
an inductive loop invariant, for any number of blocks. The returned count and the other
fields of the context are compared as well."""
from ..scen import *
from .. import spec

LEVEL = 'proof'
ASSUMPTIONS = ['sizes up to the signed maximum of the target (larger ones are rejected, see C07)']
CFGS = ['fb', 'fbr', 'be64', 'be64r', 'le32', 'be32r']

QUICK = ['fb', 'fbr', 'be64r', 'le32']

def configs(tier):
    return QUICK if tier == 'quick' else CFGS

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    out = []
    for a in ('sha512', 'sha1', 'sha256', 'sha224', 'md5'):
        for c in configs(tier):
            k = 5 if tier != 'quick' else 2 if c in ('fb', 'fbr') else 1
            out.append(('%s %s' % (a, c), blocks, (c, a, k)))
            out.append(('%s %s any' % (a, c), anyblocks, (c, a)))
    return out

MINIMUM = {'chaining words': 5 * 4 * 2, 'bytes consumed': 5 * 4 * 3, 'inductive step': 5 * 4}

def setup(L, I, size, lo, hi):
    st = State()
    c = L.P
    ctx, bo, hc, H, stream = L.context(I, st, plain=True)
    n = L.size('size')
    e = term_e(EMPTY, n)
    for q in (esub(e, ec(lo)), esub(ec(hi), e)):
        st.cons = st.cons.add(q)
    seq = Seq('BUF')
    buf = L.input(I, st, n, 'buffer', seq)
    err = L.error_arg(I, st)
    return st, ctx, n, e, seq, buf, err, H

def compare(R, L, f, rule, got, want, what, exact=True, path=(), defs=(), free=()):
    ok = True
    for i, (g, w) in enumerate(zip(got, want)):
        if g is w:
            continue
        ok = False
        if not isinstance(g, tm.Term) or g.w != w.w:
            R.check(rule, None, f, '%s: word %d is not determined' % (what, i))
            return
        d = tm.differ(g, w, defs=defs, free=free)
        R.check(rule, False if d else None, f, '%s: chaining word %d is not the value of the standard' % (what, i), exact=exact, path=path)
        return
    if ok:
        R.ok(rule, sample='%s, %s: %d words identical to the reference' % (f.name, what, len(want)))

def untouched(R, L, I, s, ctx, before, f, what):
    """fields other than the chaining words keep their contents"""
    for fld in ('hash_count', 'block_offset'):
        a = ctx_terms(I, L, s, ctx, fld)
        R.check('other fields kept', a == before[fld] or None, f, '%s: %s changed by the transform' % (what, fld))

class Abbrev(Hooks):
    """names the chaining value after each block once it is recognised, so that the value
    after the next block is a short expression over the names"""
    def __init__(self, L, f, ctx, seq, H):
        self.L, self.f, self.ctx, self.seq = L, f, ctx, seq
        self.full = [H]         # after j blocks, over the names of the value after j - 1
        self.names = [H]
        self.defs = []
    def upto(self, k):
        B = self.L.A.block
        while len(self.full) <= k:
            j = len(self.full)
            w = spec.compress(self.L.alg, self.names[j - 1], [tm.ld(self.seq, tm.const((j - 1) * B + i, 64)) for i in range(B)])
            n = [self.L.word('H%d after %d blocks' % (i, j)) for i in range(self.L.A.nwords)]
            self.full.append(w)
            self.names.append(n)
            self.defs += [(a.ts[0][0], t) for a, t in zip(n, w)]
    def back(self, I, st, f, head):
        if f is not self.f:
            return
        got = ctx_terms(I, self.L, st, self.ctx, 'hash_values', self.L.A.word)
        for j in range(1, min(len(self.full), self.k - 1) + 1):
            self.upto(j)
            if got == self.full[j]:
                ren = dict(zip(self.full[j], self.names[j]))
                for v, x in st.env.items():
                    if isinstance(x, tm.Term) and x in ren:
                        st.env[v] = ren[x]
                for o, m in st.mem.items():
                    if isinstance(m, Cells) and any(x in ren for _, x in m.c.values() if isinstance(x, tm.Term)):
                        st.mem[o] = Cells({q: (n, ren.get(x, x) if isinstance(x, tm.Term) else x) for q, (n, x) in m.c.items()}, m.gap)
                return

def blocks(R, cfg, alg, kmax):
    L = Lib(cfg, alg)
    f = L.f('context_transform')
    B = L.A.block
    for k in range(kmax + 1):
        I = L.interp()
        st, ctx, n, e, seq, buf, err, H = setup(L, I, None, k * B, k * B + B - 1)
        I.hooks = hk = Abbrev(L, f, ctx, seq, H)
        hk.k = k
        before = {x: ctx_terms(I, L, st, ctx, x) for x in ('hash_count', 'block_offset')}
        outs = I.run(f, [ctx, buf, n, err], st)
        R.absorb(I)
        hk.upto(k)
        want = hk.full[k]
        succ = 0
        what = '%d block%s [%s]' % (k, '' if k == 1 else 's', cfg)
        for s, v in outs:
            if s.mon.get('failed'):
                continue
            if ret_is(v, -1):
                # refused without any failure
                R.check('valid input accepted', False, f, '%s: valid input of %d to %d bytes fails' % (what, k * B, k * B + B - 1), exact=s.fuzzy is None, path=s.path)
                continue
            succ += 1
            ex = s.fuzzy is None
            got = ctx_terms(I, L, s, ctx, 'hash_values', L.A.word)
            compare(R, L, f, 'chaining words', got, want, what, ex, s.path, hk.defs)
            r = None
            if isinstance(v, tm.Term):
                re = term_e(s.cons, v)
                if re is not None:
                    r = True if s.cons.entails_eq(esub(re, ec(k * B))) else (False if s.cons.refutes(esub(re, ec(k * B))) or s.cons.refutes(esub(ec(k * B), re)) or dom.eexact(re) else None)
            R.check('bytes consumed', r, f, '%s: returns %r instead of %d' % (what, v, k * B), exact=ex, path=s.path)
            untouched(R, L, I, s, ctx, before, f, what)
        if not succ:
            R.check('chaining words', None, f, '%s: no successful path' % what)
        trouble(R, I, f)

def trouble(R, I, f):
    """findings of other rules do not decide this property, but leave it open"""
    for F in I.findings:
        if F.kind in ('oob', 'null', 'wild', 'diverge', 'recursion', 'uninit'):
            R.und('analysis', repr(F))

class StepHooks(Hooks):
    def __init__(self, R, L, ctx, seq, f):
        self.R, self.L, self.ctx, self.seq, self.f, self.n = R, L, ctx, seq, f, 0
    def loop_done(self, I, f, head, A, G, backs, tmpl):
        if f is not self.f:
            return
        L, R = self.L, self.R
        B = L.A.block
        kat = I.loop_atom
        o = L.field('hash_values')[0]
        H = ctx_terms(I, L, G, self.ctx, 'hash_values', L.A.word)
        # bytes consumed per iteration: the step of whatever runs through the buffer
        step = None
        for loc, t in tmpl.items():
            if t[0] == 'ind' and abs(t[1]) % B == 0 and t[1]:
                step = abs(t[1]) if step is None else min(step, abs(t[1]))
        what = 'one iteration [%s]' % L.cfg
        for X in backs:
            ex = True
            if step is None or step > 8 * B:
                R.und('inductive step', '%s: the loop does not advance by blocks' % f.name)
                return
            base = tm.mulc(tm.T(64, 0, ((kat, 1),)), step)
            # blocks consumed before the loop was entered
            off = self.offset(I, A, tmpl, step)
            if off is None:
                R.und('inductive step', '%s: no buffer position found' % f.name)
                return
            base = tm.add(base, tm.const(off, 64))
            want = H
            for j in range(step // B):
                want = spec.compress(L.alg, want, [tm.ld(self.seq, tm.add(base, tm.const(j * B + i, 64))) for i in range(B)])
            got = ctx_terms(I, L, X, self.ctx, 'hash_values', L.A.word)
            self.n += 1
            compare(R, L, f, 'inductive step', got, want, what, X.fuzzy is None, free={a for h in H if isinstance(h, tm.Term) for a, _ in h.ts})
    def offset(self, I, A, tmpl, step):
        """position in the buffer at iteration 0"""
        for loc, t in tmpl.items():
            if t[0] == 'ind' and t[1] == step:
                v = A.env.get(loc[1]) if loc[0] == 'e' else None
                if isinstance(v, Ptr) and econst(v.off):
                    return v.off[0]
                if isinstance(v, tm.Term) and not v.ts:
                    return v.c
        return None

def anyblocks(R, cfg, alg):
    L = Lib(cfg, alg)
    f = L.f('context_transform')
    B = L.A.block
    I = L.interp()
    st, ctx, n, e, seq, buf, err, H = setup(L, I, None, 0, L.ssize_max())
    I.hooks = StepHooks(R, L, ctx, seq, f)
    outs = I.run(f, [ctx, buf, n, err], st)
    R.absorb(I)
    for s, v in outs:
        if s.mon.get('failed') or ret_is(v, -1):
            continue
        r = None
        re = term_e(s.cons, v) if isinstance(v, tm.Term) else None
        if re is not None:
            # size - B < returned <= size, and a multiple of B
            a, b = esub(e, re), esub(eaddc(re, B - 1), e)
            if s.cons.entails(a) and s.cons.entails(b):
                r = all(k % B == 0 for _, k in re[1]) and re[0] % B == 0 or None
                if r is None:
                    q = tm.atom('quo', (e[1][0][0], B.bit_length() - 1), 64)
                    l, _ = dom.lifted(re)
                    r = True if s.cons.entails_eq(esub(re, emul(ea(dom.quo(e, e[1][0][0], B.bit_length() - 1)), B))) else None
            elif s.cons.refutes(a) or s.cons.refutes(b):
                r = False
            elif not s.loose and dom.eexact(re):
                # a size for which whole blocks are left over, or more is reported than there is
                for x in (eaddc(esub(e, re), -B), eaddc(esub(re, e), -1)):
                    c = s.cons.add(x)
                    if c is not None and dom.model(c, ec(1)) is not None:
                        r = False
        R.check('bytes consumed', r, f, 'any number of blocks [%s]: returns %r' % (cfg, v), exact=s.fuzzy is None, path=s.path)
    if not I.hooks.n:
        R.und('inductive step', '%s: no loop over the blocks was found' % f.name)
    trouble(R, I, f)
