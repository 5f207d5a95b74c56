"""Taint dataflow over values: the bytes of key and message, the chaining state and digests
are secret sources; every branch, switch and address computation met on any path of any entry
point of the built-in implementation is an obligation not to depend on a secret value."""
from ..entry import *

LEVEL = 'proof'
ASSUMPTIONS = ['branches and addresses of the source program; what a compiler or processor makes of them is outside (C29)']
CONCRETE = True
MINIMUM = {'public branch': 50, 'public address': 5 * 3 * 50}

def configs(tier):
    return BUILTIN_QUICK if tier == 'quick' else BUILTIN_ALL

def prepare(tier):
    for c in configs(tier):
        build.compile_all(c, 'lib')

def tasks(tier):
    return std_tasks(entry, configs(tier))

class Ct(Hooks):
    def __init__(self, R, cfg):
        self.R, self.cfg = R, cfg
        self.reported = set()
    def branch(self, I, st, cnd, ins):
        addr = ins.op == 'gep'
        rule = 'public address' if addr else 'public branch'
        if not getattr(cnd, 'secret', False):
            self.R.ok(rule)
            return
        k = (ins, st.fuzzy is None)
        if k in self.reported:
            return
        self.reported.add(k)
        self.R.bad(rule, ins.file, ins.line, ins.block.func.name, '%s depends on secret data [%s]' % ('a memory address' if addr else 'a branch', self.cfg), st.fuzzy is None and getattr(cnd, 'exact', True), st.path + (show_t(cnd),))
    def load(self, I, st, p, n, ins):
        self.R.ok('public address')
    def store(self, I, st, p, n, v, ins):
        self.R.ok('public address')
    def size(self, I, st, n, ins):
        if any(a.secret for a, _ in n[1]):
            self.R.bad('public address', ins.file, ins.line, ins.block.func.name, 'a length depends on secret data [%s]' % self.cfg, st.fuzzy is None and dom.eexact(n), st.path)
        else:
            self.R.ok('public address')
    def range_read(self, I, st, p, n, ins):
        self.size(I, st, n, ins)
    def range_write(self, I, st, p, n, ins):
        self.size(I, st, n, ins)

def entry(R, cfg, alg, names):
    L = Lib(cfg, alg)
    E, names = entry_names(L, names)
    for n in names:
        I, sc, outs = E.run(n, hooks=Ct(R, cfg), faults=False)
        R.absorb(I)
