"""Compile-time witnesses and an interface query. A translation unit that includes the public
header together with every internal header must compile (a function declared differently in
the two does not); each constant is a static assertion of its own (digest sizes against the
standard, error domains and codes against the error library's, version against configure.ac),
for the public and the local-build definitions; every function the public header declares
must be defined with external linkage and the same machine-level signature in every backend
configuration; the version and error functions are interpreted and must return the version
and forward their arguments to the error library."""
import os, re, subprocess, glob
from ..scen import *

LEVEL = 'proof'
ASSUMPTIONS = ['the values of the error library are those of libcerror as published (stubs/lib/libcerror.h)']
CONCRETE = True
MINIMUM = {'signature': 4 * 60, 'declared the same': 1, 'constant': 60, 'version': 1, 'error forwarding': 5}
CFGS = ['fb', 'fbr', 'ossl', 'evp', 'evpold', 'le32']

def prepare(tier):
    for c in CFGS:
        build.compile_all(c, 'lib')

def tasks(tier):
    return [('headers', headers, ()), ('constants', constants, ()), ('local constants', local_constants, ()), ('version and errors', behaviour, ())] + [('signatures ' + c, signatures, (c,)) for c in CFGS]

class At:
    def __init__(self, file, name, line=1):
        self.file, self.name, self.line = file, name, line

def syntax(cfg, text, name, defines=()):
    """errors of a translation unit: [(line of the unit or None, file, line, message)]"""
    p = os.path.join(build.scratch(), name + '.c')
    open(p, 'w').write(text)
    r = subprocess.run([build.CLANG] + build.cflags(cfg) + list(defines) + ['-ferror-limit=0', '-fno-caret-diagnostics', '-fsyntax-only', p], capture_output=True, text=True)
    out = []
    for m in re.finditer(r'(?m)^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', r.stderr):
        out.append((int(m.group(2)) if m.group(1) == p else None, m.group(1), int(m.group(2)), m.group(3)))
    if r.returncode and not out:
        raise build.BuildError(r.stderr[:2000])
    return out

def declared(cfg='fb'):
    """functions the public header declares"""
    p = os.path.join(build.scratch(), 'pub-%s-%d.c' % (cfg, os.getpid()))
    open(p, 'w').write('#include <common.h>\n#include <types.h>\n#include <libhmac.h>\n')
    r = subprocess.run([build.CLANG] + build.cflags(cfg) + ['-E', '-P', p], capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[:2000])
    names = sorted(set(re.findall(r'\b(libhmac_\w+)\s*\(', r.stdout)))
    if not names:
        raise AnchorError('the public header declares no function')
    return names

def internal_headers():
    skip = ('libhmac_libcerror.h', 'libhmac_byte_stream.h')
    return [os.path.basename(h) for h in sorted(glob.glob(os.path.join(build.REPO, 'libhmac', 'libhmac_*.h'))) if os.path.basename(h) not in skip]

def headers(R):
    for cfg in ('fb', 'evp'):
        t = '#include <common.h>\n#include <file_stream.h>\n#include <types.h>\n#include <libhmac.h>\n#include "libhmac_libcerror.h"\n#define libcerror_error_t libhmac_error_t\n'
        t += ''.join('#include "%s"\n' % h for h in internal_headers())
        es = syntax(cfg, t, 'agree_' + cfg)
        conf = [e for e in es if 'conflicting types' in e[3]]
        for _, f, l, m in conf:
            R.bad('declared the same', f.replace(build.scratch(), 'generated'), l, (re.findall(r"'(\w+)'", m) or ['?'])[0], 'public and internal declaration differ: %s' % m)
        if es and not conf:
            R.und('declared the same', 'the headers do not compile together: %s' % es[0][3])
        if not es:
            R.ok('declared the same', sample='public header and %d internal headers agree [%s]' % (len(internal_headers()), cfg))

def asserts(R, cfg, includes, items, name, defines=()):
    """items: (file, construct, C expression, message)"""
    lines = list(includes)
    where = {}
    for f, c, x, msg in items:
        lines.append('_Static_assert( %s, "x" );' % x)
        where[len(lines)] = (f, c, msg)
    es = syntax(cfg, '\n'.join(lines) + '\n', name, defines)
    bad = {}
    for l, f, fl, m in es:
        if l in where:
            bad.setdefault(l, m)
        else:
            R.und('constant', '%s: %s:%s: %s' % (name, f, fl, m))
    for l, (f, c, msg) in where.items():
        if l in bad:
            if 'undeclared' in bad[l]:
                R.bad('constant', f, find_line(f, c), c, '%s is not published' % c)
            elif 'static assertion' in bad[l] or 'static_assert' in bad[l]:
                R.bad('constant', f, find_line(f, c), c, 'does not hold: ' + msg)
            else:
                R.und('constant', '%s: %s' % (c, bad[l]))
        else:
            R.ok('constant', sample='%s [%s]' % (msg, name))

def find_line(f, c):
    try:
        for i, l in enumerate(open(os.path.join(build.REPO, f))):
            if re.search(r'\b%s\b' % re.escape(c), l):
                return i + 1
    except OSError:
        pass
    return 0

SIZES = {'MD5': 16, 'SHA1': 20, 'SHA224': 28, 'SHA256': 32, 'SHA512': 64}

def reported_codes():
    """error domains and codes the library sources use"""
    out = {}
    for p in sorted(glob.glob(os.path.join(build.REPO, 'libhmac', '*.c'))):
        t = re.sub(r'/\*.*?\*/|"(?:\\.|[^"\\])*"', '', open(p).read(), flags=re.S)
        for n in re.findall(r'\bLIBCERROR_([A-Z_]+)\b', t):
            out.setdefault(n, os.path.basename(p))
    return out

def published_codes():
    t = re.sub(r'/\*.*?\*/', '', open(os.path.join(build.REPO, 'include/libhmac/error.h')).read(), flags=re.S)
    return sorted(set(re.findall(r'\bLIBHMAC_((?:ERROR_DOMAIN|\w+_ERROR)_\w+)\b\s*=', t)))

def constants(R):
    v = build.version()
    it = []
    for a, n in SIZES.items():
        it.append(('include/libhmac/definitions.h.in', 'LIBHMAC_%s_HASH_SIZE' % a, 'LIBHMAC_%s_HASH_SIZE == %d' % (a, n), 'LIBHMAC_%s_HASH_SIZE is %d' % (a, n)))
    it.append(('include/libhmac/definitions.h.in', 'LIBHMAC_VERSION_STRING', '__builtin_strcmp( LIBHMAC_VERSION_STRING, "%s" ) == 0' % v, 'LIBHMAC_VERSION_STRING is the version of the package'))
    it.append(('include/libhmac/definitions.h.in', 'LIBHMAC_VERSION', '( LIBHMAC_VERSION ) == %s' % v, 'LIBHMAC_VERSION is the version of the package'))
    known = set(re.findall(r'\bLIBCERROR_([A-Z_]+)\b\s*=', open(os.path.join(build.STUBS, 'lib', 'libcerror.h')).read()))
    for n in sorted(set(published_codes()) | set(reported_codes())):
        if n in known:
            it.append(('include/libhmac/error.h', 'LIBHMAC_' + n, '(int) LIBHMAC_%s == (int) LIBCERROR_%s' % (n, n), 'LIBHMAC_%s has the value the library reports' % n))
        else:
            R.und('constant', 'LIBCERROR_%s is not known' % n)
    asserts(R, 'fb', ['#include <common.h>', '#include <types.h>', '#include <libhmac.h>', '#include "libhmac_libcerror.h"'], it, 'public')

def local_constants(R):
    v = build.version()
    f = 'libhmac/libhmac_definitions.h.in'
    it = [(f, 'LIBHMAC_%s_HASH_SIZE' % a, 'LIBHMAC_%s_HASH_SIZE == %d' % (a, n), 'LIBHMAC_%s_HASH_SIZE is %d' % (a, n)) for a, n in SIZES.items()]
    it.append((f, 'LIBHMAC_VERSION_STRING', '__builtin_strcmp( LIBHMAC_VERSION_STRING, "%s" ) == 0' % v, 'LIBHMAC_VERSION_STRING is the version of the package'))
    it.append((f, 'LIBHMAC_VERSION', '( LIBHMAC_VERSION ) == %s' % v, 'LIBHMAC_VERSION is the version of the package'))
    for name, cfg in (('local', 'local'), ('internal', 'fb')):
        asserts(R, cfg, ['#include <common.h>', '#include <types.h>', '#include "libhmac_definitions.h"'], it, name)

def signatures(R, cfg):
    names = declared()
    p = os.path.join(build.scratch(), 'decl.c')
    if not os.path.exists(p):
        t = '#include <common.h>\n#include <types.h>\n#include <libhmac.h>\n'
        t += 'const void *decls[] = {\n' + ''.join('(const void *) &%s,\n' % n for n in names) + '};\n'
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(t)
        os.rename(tmp, p)
    W = ir.Module(build.compile_one(cfg, p, kind='lib'))
    P = program(cfg)
    for n in names:
        d = W.funcs.get(n)
        f = P.funcs.get(n)
        if f is None:
            R.bad('signature', 'include/libhmac.h.in', find_line('include/libhmac.h.in', n), n, 'the public header declares %s but the library does not define it [%s]' % (n, cfg))
            continue
        if d is None:
            R.und('signature', n)
            continue
        a = [repr(x.ty) for x in d.args], repr(d.retty), bool(d.vararg)
        b = [repr(x.ty) for x in f.args], repr(f.retty), bool(f.vararg)
        R.check('signature', a == b, f, 'declared as %s, defined as %s [%s]' % (a, b, cfg), sample='%s [%s]: %s' % (n, cfg, ', '.join(a[0])))

def behaviour(R):
    v = build.version()
    P = program('fb')
    f = func(P, 'libhmac_get_version')
    I = interp.Interp(P, dict(libc.BASE))
    n = 0
    for s, r in I.run(f, [], State()):
        t = libc.cstring(I, s, r) if isinstance(r, Ptr) else None
        R.check('version', None if t is None else t == v, f, 'the version reported is %r, the package is %r' % (t, v), exact=s.fuzzy is None, sample='libhmac_get_version returns %s' % t)
    # the forwarding functions
    for what, kinds in (('free', 'p'), ('fprint', 'pp'), ('sprint', 'ppn'), ('backtrace_fprint', 'pp'), ('backtrace_sprint', 'ppn')):
        f = func(P, 'libhmac_error_' + what)
        calls = []
        def fwd(I, st, c):
            st.mon['calls'] = st.mon.get('calls', ()) + ((c.name, tuple(c.args)),)
            return [(st, None if c.name.endswith('_free') else tm.sym('printed', 32))]
        ct = dict(libc.BASE)
        for w in ('free', 'fprint', 'sprint', 'backtrace_fprint', 'backtrace_sprint'):
            ct['libcerror_error_' + w] = fwd
        I = interp.Interp(P, ct)
        st = State()
        args = []
        for i, k in enumerate(kinds):
            args.append(I.new(st, 'arg', 'argument %d' % (i + 1), 64, content=Cells({}, TOP)) if k == 'p' else tm.sym('size', P.ptrsize * 8))
        for s, r in I.run(f, args, st):
            want = ('libcerror_error_' + what, tuple(args))
            cs = s.mon.get('calls', ())
            ok = len(cs) == 1 and cs[0][0] == want[0] and cs[0][1] == want[1]
            if what != 'free':
                ok = ok and isinstance(r, tm.Term) and r is tm.sym('printed', 32)
            R.check('error forwarding', ok, f, 'does not hand its arguments to %s and return its result' % want[0], exact=s.fuzzy is None, sample='%s forwards to %s' % (f.name, want[0]))
