"""Symbolic evaluation of the byte-order helpers: a wrapper function around each macro of
common/byte_stream.h and libhmac/libhmac_byte_stream.h is compiled (not run) for four targets
and interpreted on symbolic bytes, values and previous contents; the result must be the term
the name of the macro stands for, for every input at once, reading and writing exactly the
named number of bytes. Rotations are evaluated for every count from 1 to width - 1."""
import os
from ..scen import *

LEVEL = 'proof'
ASSUMPTIONS = ['rotation counts from 1 to width - 1 (the others are outside what the helpers support)']
MINIMUM = {'loads': 4 * 20, 'stores': 4 * 20, 'rotations': 4 * 200, 'block loads': 4 * 4}
CFGS = ['fb', 'le32', 'be64', 'be32r']

def ctype(n):
    return {2: 'uint16_t', 3: 'uint32_t', 4: 'uint32_t', 6: 'uint64_t', 8: 'uint64_t', 1: 'uint8_t'}[n]

ITEMS = []          # (rule, function, macro, C text, data)
def item(rule, fn, macro, text, *data):
    ITEMS.append((rule, fn, macro, text, data))
for n in (2, 3, 4, 6, 8):
    for end in ('big', 'little'):
        T = ctype(n)
        m = 'byte_stream_copy_to_uint%d_%s_endian' % (n * 8, end)
        item('loads', 'ld_%d_%s' % (n, end), m, 'void ld_%d_%s( const uint8_t *p, %s *out, %s old ) { %s value = old; %s( p, value ); *out = value; }' % (n, end, T, T, T, m), n, end, 0)
        item('loads', 'lx_%d_%s' % (n, end), m, 'void lx_%d_%s( const uint8_t *p, %s *out, %s old ) { %s( p + 1, *out ); }' % (n, end, T, T, m), n, end, 1)
        m = 'byte_stream_copy_from_uint%d_%s_endian' % (n * 8, end)
        item('stores', 'st_%d_%s' % (n, end), m, 'void st_%d_%s( uint8_t *p, %s value ) { %s( p, value ); }' % (n, end, T, m), n, end, 0)
        item('stores', 'sx_%d_%s' % (n, end), m, 'void sx_%d_%s( uint8_t *p, %s value ) { %s( p + 1, value ^ 1 ); }' % (n, end, T, m), n, end, 1)
for w in (8, 16, 32, 64):
    T = 'uint%d_t' % w
    for k in range(1, w):
        for d in ('left', 'right'):
            for sfx in ('_%dbit' % w, ''):
                m = 'byte_stream_bit_rotate_%s%s' % (d, sfx)
                fn = 'rot_%s_%d_%d%s' % (d, w, k, 'g' if not sfx else '')
                # the general macro relies on the promoted type, so it is given full-width values
                item('rotations', fn, m, '%s %s( %s x ) { return( (%s) ( %s( x, %d ) ) ); }' % (T, fn, T, T, m, k), w, k, d)
for w in (32, 64):
    T = 'uint%d_t' % w
    for end in ('big', 'little'):
        m = 'libhmac_byte_stream_copy_to_16x_uint%d_%s_endian' % (w, end)
        item('block loads', 'blk_%d_%s' % (w, end), m, 'void blk_%d_%s( const uint8_t *p, %s *out ) { %s( p, out ); }' % (w, end, T, m), w // 8, end, 16, None)
        m = 'libhmac_byte_stream_copy_to_1x_uint%d_%s_endian' % (w, end)
        for i in (0, 5, 15):
            fn = 'one_%d_%s_%d' % (w, end, i)
            item('block loads', fn, m, 'void %s( const uint8_t *p, %s *out ) { int i = %d; %s( p, out, i ); }' % (fn, T, i, m), w // 8, end, 16, i)

def source():
    p = os.path.join(build.scratch(), 'c18_wrappers.c')
    if not os.path.exists(p):
        t = ['#include <common.h>', '#include <byte_stream.h>', '#include <types.h>', '#include "libhmac_byte_stream.h"']
        for rule, fn, macro, text, data in ITEMS:
            t.append('#if defined( %s )\n%s\n#endif' % (macro, text))
        open(p, 'w').write('\n'.join(t) + '\n')
    return p

def prepare(tier):
    for c in CFGS:
        build.compile_one(c, source())

def tasks(tier):
    return [('macros ' + c, macros, (c,)) for c in CFGS]

class Loc:
    """where a macro is defined"""
    def __init__(self, name):
        self.name, self.file, self.line = name, 'common/byte_stream.h' if name.startswith('byte_stream') else 'libhmac/libhmac_byte_stream.h', 0
        try:
            for i, l in enumerate(open(os.path.join(build.REPO, self.file))):
                if ('define %s(' % name) in l:
                    self.line = i + 1
        except OSError:
            pass

def out_word(I, s, p, off, n):
    m = s.mem[p.oid]
    return (read_cells(m, off, n, I.big) if isinstance(m, Cells) else read_segs(s.cons, m, ec(off), n, I.big))

def macros(R, cfg):
    P = ir.Program([build.compile_one(cfg, source())])
    pw = P.ptrsize * 8
    for rule, fn, macro, text, data in ITEMS:
        loc = Loc(macro)
        f = P.funcs.get(fn)
        if f is None:
            R.und(rule, '%s is not defined' % macro)
            continue
        I = interp.Interp(P, dict(libc.BASE))
        st = State()
        seq = Seq('p')
        if rule == 'loads':
            n, end, sh = data
            w = {2: 16, 3: 32, 4: 32, 6: 64, 8: 64}[n]
            p = I.new(st, 'arg', 'bytes', n + sh, content=Cells({}, src(seq)), writable=False)
            o = I.new(st, 'arg', 'value', w // 8, content=Cells({0: (w // 8, tm.sym('old', w))}, UNDEF))
            outs = I.run(f, [p, o, tm.sym('old', w)], st)
            bs = [tm.ld(seq, tm.const(i + sh, 64)) for i in range(n)]
            bs = bs[::-1] if end == 'big' else bs
            want = tm.concat(bs + [tm.const(0, 8)] * (w // 8 - n))
            got = [(s, out_word(I, s, o, 0, w // 8)[0]) for s, v in outs]
            judge(R, rule, loc, I, [(s, [g], [want]) for s, g in got], cfg, [fn])
        elif rule == 'stores':
            n, end, sh = data
            w = {2: 16, 3: 32, 4: 32, 6: 64, 8: 64}[n]
            x = tm.sym('value', w, secret=True)
            p = I.new(st, 'arg', 'bytes', n + sh)
            outs = I.run(f, [p, x], st)
            y = tm.xor(x, tm.const(1, w)) if sh else x
            bs = [tm.byte(y, i) for i in range(n)]
            bs = bs[::-1] if end == 'big' else bs
            rs = []
            for s, v in outs:
                g = []
                for i in range(n):
                    b, prob = out_word(I, s, p, i + sh, 1)
                    if prob == 'undef':
                        R.bad(rule, loc.file, loc.line, macro, 'byte %d is not written [%s]' % (i, cfg), s.fuzzy is None)
                    g.append(b)
                if sh:
                    b, prob = out_word(I, s, p, 0, 1)
                    if prob != 'undef':
                        R.bad(rule, loc.file, loc.line, macro, 'a byte before the value is written [%s]' % cfg, s.fuzzy is None)
                rs.append((s, g, bs))
            judge(R, rule, loc, I, rs, cfg, [fn])
        elif rule == 'rotations':
            w, k, d = data
            x = tm.sym('x', w, secret=True)
            outs = I.run(f, [x], st)
            kk = k if d == 'left' else w - k
            want = tm.or_(tm.shl(x, kk), tm.lshr(x, w - kk))
            rs = []
            for s, v in outs:
                rs.append((s, [tm.trunc(v, w) if isinstance(v, tm.Term) and v.w > w else v], [want]))
            judge(R, rule, loc, I, rs, cfg, ['%d bits' % k])
        else:
            n, end, cnt, only = data
            p = I.new(st, 'arg', 'bytes', n * cnt, content=Cells({}, src(seq)), writable=False)
            o = I.new(st, 'arg', 'values', n * cnt, content=Cells({n * i: (n, tm.sym('old%d' % i, n * 8)) for i in range(cnt)}, UNDEF))
            outs = I.run(f, [p, o], st)
            rs = []
            for s, v in outs:
                g, wt = [], []
                for i in range(cnt):
                    g.append(out_word(I, s, o, n * i, n)[0])
                    if only is not None and i != only:
                        wt.append(tm.sym('old%d' % i, n * 8))
                        continue
                    bs = [tm.ld(seq, tm.const(n * i + j, 64)) for j in range(n)]
                    wt.append(tm.concat(bs[::-1] if end == 'big' else bs))
                rs.append((s, g, wt))
            judge(R, rule, loc, I, rs, cfg, [fn])

def judge(R, rule, loc, I, rs, cfg, what):
    for F in I.findings:
        if F.kind in ('oob', 'rowrite'):
            R.bad(rule, loc.file, loc.line, loc.name, '%s [%s]' % (F.msg, cfg), F.exact)
        elif F.kind in ('uninit',):
            R.bad(rule, loc.file, loc.line, loc.name, 'the result depends on an uninitialised value [%s]' % cfg, F.exact)
    if not rs:
        R.und(rule, '%s: no result' % loc.name)
    for s, g, w in rs:
        r, msg = True, ''
        for i, (a, b) in enumerate(zip(g, w)):
            q = same(a, b)
            if q is not True:
                r, msg = q, '%s is computed instead of %s' % (show_t(a), show_t(b))
                break
        R.check(rule, r, loc, '%s: %s [%s]' % (loc.name, msg, cfg), exact=s.fuzzy is None, sample='%s (%s) on %s' % (loc.name, what[0], cfg))
