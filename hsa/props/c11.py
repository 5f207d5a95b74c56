"""Effect analysis: (1) over the IR of every library function in every backend configuration,
no store, block operation or escaping address may reach storage of static lifetime, and no
non-reentrant C library service is called; (2) every write met while interpreting every entry
point of the built-in implementation (with all its callees) is resolved to the object it
changes, which must be an argument, a local or a fresh allocation; (3) after a call no object
of static lifetime differs from before and no context refers to a writable one."""
from ..entry import *

LEVEL = 'proof'
ASSUMPTIONS = ['libcerror and the crypto backends keep no state shared between contexts of their own']
SCAN = ['fb', 'fbr', 'ossl', 'evp', 'evp1', 'evpold']
CONCRETE = True
MINIMUM = {'no write to static storage': 1000, 'no non-reentrant service': 100, 'static storage unchanged': 100}

# C library services that keep state of their own
NONREENTRANT = set('''strtok strerror strsignal rand srand random srandom drand48 lrand48 mrand48 srand48 erand48 initstate setstate
localtime gmtime ctime asctime getenv setenv putenv unsetenv secure_getenv tmpnam tempnam mktemp getpwnam getpwuid getgrnam getgrgid
gethostbyname gethostbyaddr getlogin ttyname setlocale localeconv nl_langinfo getdate hcreate hsearch hdestroy crypt encrypt setkey
ecvt fcvt lgamma basename dirname inet_ntoa ptsname readdir wcstombs mbtowc wctomb mblen mbrlen signal alarm chdir umask getopt
getopt_long atexit strtok_s longjmp siglongjmp l64a getutent getservbyname getprotobyname'''.split())
WRITES = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'snprintf': (0,), 'sprintf': (0,), 'read': (1,), 'fread': (0,), 'fgets': (0,)}

for _h in ('MD5', 'SHA1', 'SHA224', 'SHA256', 'SHA384', 'SHA512'):
    WRITES.update({_h + '_Init': (0,), _h + '_Update': (0,), _h + '_Final': (0, 1), _h + '_Transform': (0,)})
WRITES.update({'EVP_DigestInit': (0,), 'EVP_DigestInit_ex': (0,), 'EVP_DigestInit_ex2': (0,), 'EVP_DigestUpdate': (0,), 'EVP_DigestFinal': (0, 1, 2),
               'EVP_DigestFinal_ex': (0, 1, 2), 'EVP_MD_CTX_init': (0,), 'EVP_MD_CTX_cleanup': (0,), 'EVP_MD_CTX_reset': (0,), 'EVP_MD_CTX_free': (0,), 'EVP_MD_CTX_copy_ex': (0,), 'EVP_MD_CTX_copy': (0,)})

def configs(tier):
    return ['fb', 'fbr'] if tier == 'quick' else BUILTIN_ALL

def prepare(tier):
    for c in set(configs(tier)) | set(SCAN):
        build.compile_all(c, 'lib')

def tasks(tier):
    return [('effects ' + c, scan, (c,)) for c in SCAN] + std_tasks(entry, configs(tier))

def roots_of(prog, f):
    """instruction -> static objects its address value may be based on"""
    derived = {}
    def roots(o):
        if isinstance(o, ir.GRef):
            g = prog.resolve_global(f.module, o.name)
            return {g} if g is not None else frozenset()
        if isinstance(o, ir.Instr):
            return derived.get(o, frozenset())
        return frozenset()
    ch = True
    while ch:
        ch = False
        for b in f.blocks:
            for i in b.instrs:
                if i.op in ('gep', 'bitcast', 'select', 'freeze'):
                    r = set().union(*[roots(o) for o in (i.ops[:1] if i.op == 'gep' else i.ops)])
                elif i.op == 'phi':
                    r = set().union(*[roots(v) for v, _ in i.phi])
                else:
                    continue
                if r - derived.get(i, frozenset()):
                    derived[i] = set(derived.get(i, frozenset())) | r
                    ch = True
    return roots

def scan(R, cfg):
    P = program(cfg)
    for f in P.functions():
        roots = roots_of(P, f)
        R.functions.add(f.name)
        for b in f.blocks:
            if b.rpo >= 10 ** 9:
                continue
            for i in b.instrs:
                if i.op == 'store':
                    t = [g for g in roots(i.ops[1])]
                    if t:
                        R.bad('no write to static storage', i.file, i.line, f.name, '%s of static lifetime is written [%s]' % (t[0].name, cfg))
                    else:
                        R.ok('no write to static storage')
                elif i.op in ('atomicrmw', 'cmpxchg'):
                    t = [g for o in i.ops for g in roots(o)]
                    if t:
                        R.bad('no write to static storage', i.file, i.line, f.name, '%s of static lifetime is written [%s]' % (t[0].name, cfg))
                elif i.op in ('call', 'invoke') and isinstance(i.callee, ir.GRef):
                    n = i.callee.name
                    if n in NONREENTRANT:
                        R.bad('no non-reentrant service', i.file, i.line, f.name, '%s is called, which keeps state shared between threads [%s]' % (n, cfg))
                    elif not n.startswith('llvm.dbg'):
                        R.ok('no non-reentrant service')
                    base = 'memcpy' if n.startswith('llvm.memcpy') else 'memset' if n.startswith('llvm.memset') else 'memmove' if n.startswith('llvm.memmove') else n
                    for k in WRITES.get(base, ()):
                        t = [g for g in roots(i.ops[k])] if k < len(i.ops) else []
                        if t:
                            R.bad('no write to static storage', i.file, i.line, f.name, '%s of static lifetime is written by %s [%s]' % (t[0].name, base, cfg))
                        else:
                            R.ok('no write to static storage')

class Eff(Hooks):
    def __init__(self, R, cfg):
        self.R, self.cfg, self.seen = R, cfg, set()
    def store(self, I, st, p, n, v, ins):
        self.to(I, st, p, ins)
    def range_write(self, I, st, p, n, ins):
        self.to(I, st, p, ins)
    def to(self, I, st, p, ins):
        if not isinstance(p, Ptr):
            return
        o = I.objs.get(p.oid)
        if o is None or o.kind != 'global':
            self.R.ok('no write to static storage')
            return
        if ins not in self.seen:
            self.seen.add(ins)
            self.R.bad('no write to static storage', ins.file, ins.line, ins.block.func.name, '%s of static lifetime is written [%s]' % (o.name, self.cfg), st.fuzzy is None, st.path)

def entry(R, cfg, alg, names):
    L = Lib(cfg, alg)
    E, names = entry_names(L, names)
    for n in names:
        I, sc, outs = E.run(n, hooks=Eff(R, cfg), hash_lo=0)
        R.absorb(I)
        for s, v in outs:
            # nothing handed out may refer to writable static storage
            bad = [o for o in reachable(I, s, [o for o in sc.base if o in s.mem and I.objs[o].kind != 'global']) if I.objs[o].kind == 'global' and I.objs[o].writable]
            R.check('static storage unchanged', not bad, sc.f, 'the caller is handed a reference to %s of static lifetime [%s]' % (', '.join(sorted(I.objs[o].name for o in bad)), cfg), exact=s.fuzzy is None, path=s.path)
