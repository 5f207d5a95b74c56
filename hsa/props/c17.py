"""Loop-bound analysis: every loop reached on any path of any entry point is either unrolled
completely by constant propagation (its trip count is fixed by the code) or generalised to an
inductive invariant from which a bound on the number of iterations, linear in the arguments
and fixed before the loop starts, must follow; the call graph is checked for recursion."""
from ..entry import *

LEVEL = 'proof'
MINIMUM = {'loop bounded': 5 * 3, 'no recursion': 60, 'loop covered': 10}

def configs(tier):
    return BUILTIN_QUICK if tier == 'quick' else BUILTIN_ALL

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    return std_tasks(entry, configs(tier)) + [('call graph ' + c, graph, (c,)) for c in configs(tier)]

class Rank(Hooks):
    def __init__(self, R, cfg):
        self.R, self.cfg = R, cfg
        self.covered = set()
        self.unrolled = {}
    def back(self, I, st, f, head):
        k = (f.name, head.idx)
        self.unrolled[k] = self.unrolled.get(k, 0) + 1
    def loop_done(self, I, f, head, A, G, backs, tmpl):
        R, k = self.R, I.loop_atom
        line = head.instrs[-1].line or f.line
        self.covered.add((f.name, head.idx))
        good = True
        for B in backs:
            if not any(any(a is k and c < 0 for a, c in r[1]) and all(a is k or not str(a.args[0]).startswith('loop#') for a, c in r[1]) for r in B.cons.rows):
                good = False
        if good:
            b = [dom.eshow(r) for B in backs for r in B.cons.rows if any(a is k and c < 0 for a, c in r[1])][:1]
            R.ok('loop bounded', sample='%s line %s [%s]: %s >= 0' % (f.name, line, self.cfg, b))
            return
        exits, rets = I.loop_exits
        base = len(G.mon.get('failed', ()))
        normal = [s for _, s in exits if len(s.mon.get('failed', ())) == base] + [s for s, v, i in rets if len(s.mon.get('failed', ())) == base]
        if not normal and any(B.fuzzy is None for B in backs):
            R.bad('loop bounded', f.file, line, f.name, 'once entered, the loop is never left [%s]' % self.cfg, True, A.path)
            return
        w = stuck(A, normal)
        if w:
            R.bad('loop bounded', f.file, line, f.name, 'the loop is never left when %s [%s]' % (w, self.cfg), A.fuzzy is None, A.path)
        else:
            R.und('loop bounded', '%s line %s: no bound on the number of iterations found [%s]' % (f.name, line, self.cfg))

def stuck(A, ends):
    """arguments with which the loop is entered and none of its exits is possible"""
    if A.loose or not ends:
        return None
    cand = set()
    for s in ends:
        for r in s.cons.rows:
            cand |= {a for a, _ in r[1] if a.kind == 'sym' and a.exact and not str(a.args[0]).startswith('loop#')}
    for a in sorted(cand, key=lambda a: a.id):
        for v in (a.hi, a.hi // 2 + 1, 1 << 33):
            if not a.lo <= v <= a.hi:
                continue
            pin = eaddc(ea(a), -v)
            c = A.cons.addeq(pin)
            if c is None or dom.model(c, ec(1)) is None:
                continue
            if all(s.cons.addeq(pin) is None or dom.infeasible(list(s.cons.addeq(pin).rows)) for s in ends):
                return '%s is %d' % (a.args[0], v)
    return None

def entry(R, cfg, alg, names):
    L = Lib(cfg, alg)
    E, names = entry_names(L, names)
    seen = set()
    hk = Rank(R, cfg)
    for n in names:
        I, sc, outs = E.run(n, hooks=hk, faults=False)
        R.absorb(I)
        seen |= I.stats['blocks']
        for F in I.findings:
            if F.kind in ('recursion', 'diverge'):
                R.finding('no recursion' if F.kind == 'recursion' else 'loop bounded', F)
    for (fn, h), n in sorted(hk.unrolled.items()):
        R.ok('loop bounded', sample='%s: %d iterations, fixed' % (fn, n))
    below = under(L.P, alg)
    for f in L.P.functions():
        if ('_%s_' % alg) not in f.name:
            continue
        tr = f.name in below and (f.name.endswith('_transform') or not reached(seen, f.name))
        for h in f.loops:
            if names == ['context_transform'] or names == ('context_transform',):
                if not tr:
                    continue
            elif tr:
                continue
            if (f.name, h.idx) in seen or (f.name, h.idx) in hk.covered:
                R.ok('loop covered')
            elif reached(seen, f.name):
                R.ok('loop covered')     # the function was analysed; this loop is unreachable
            else:
                R.und('loop covered', '%s is not reached from the entry points' % f.name)

def under(P, alg):
    """the block transform of an algorithm and what it calls"""
    out = set()
    todo = [f for f in P.functions() if ('_%s_' % alg) in f.name and f.name.endswith('_transform')]
    while todo:
        f = todo.pop()
        if f.name in out:
            continue
        out.add(f.name)
        for b in f.blocks:
            for i in b.instrs:
                if i.op == 'call' and isinstance(i.callee, ir.GRef):
                    g = P.resolve(f.module, i.callee.name)
                    if g is not None and not g.decl:
                        todo.append(g)
    return out

def reached(seen, name):
    return any(n == name for n, _ in seen)

def graph(R, cfg):
    P = program(cfg)
    calls = {}
    for f in P.functions():
        s = set()
        for b in f.blocks:
            for i in b.instrs:
                if i.op == 'call' and isinstance(i.callee, ir.GRef):
                    g = P.resolve(f.module, i.callee.name)
                    if g is not None and not g.decl:
                        s.add(g)
                elif i.op == 'call' and not (isinstance(i.callee, ir.Opaque)):
                    R.und('no recursion', '%s: call of a computed function' % f.name)
        calls[f] = s
    color, order = {}, []
    def visit(f):
        color[f] = 1
        for g in sorted(calls.get(f, ()), key=lambda x: x.name):
            if color.get(g) == 1:
                R.bad('no recursion', f.file, f.line, f.name, '%s and %s call each other recursively' % (f.name, g.name))
            elif g not in color:
                visit(g)
        color[f] = 2
    for f in sorted(calls, key=lambda x: x.name):
        if f not in color:
            visit(f)
        R.ok('no recursion')
        R.functions.add(f.name)
