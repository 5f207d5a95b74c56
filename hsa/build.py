"""Front end: configures /repo's current sources without the build system and
compiles them (never links, never runs them) to LLVM bitcode in several
preprocessor and target configurations."""
import os, re, subprocess, sys, tempfile, shutil, glob, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('HSA_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(os.path.dirname(HERE), 'stubs')
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'

class BuildError(Exception):
    pass

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='hsa.')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

CONFIG_BASE = """
HAVE_CLOSE HAVE_ERRNO_H HAVE_FCLOSE HAVE_FCNTL_H HAVE_FREE HAVE_GETOPT HAVE_INTTYPES_H
HAVE_LIMITS_H HAVE_MALLOC HAVE_MEMCHR HAVE_MEMCMP HAVE_MEMCPY HAVE_MEMRCHR HAVE_MEMSET
HAVE_OPEN HAVE_READ HAVE_REALLOC HAVE_SETVBUF HAVE_SNPRINTF
HAVE_SSCANF HAVE_STDARG_H HAVE_STDINT_H HAVE_STDIO_H HAVE_STDLIB_H HAVE_STRCASECMP
HAVE_STRCHR HAVE_STRINGS_H HAVE_STRING_H HAVE_STRLEN HAVE_STRNCASECMP HAVE_STRNCMP HAVE_STRNCPY
HAVE_STRRCHR HAVE_STRSTR HAVE_SYS_STAT_H HAVE_SYS_TYPES_H HAVE_UNISTD_H HAVE_VFPRINTF
HAVE_VSNPRINTF HAVE_WCHAR_H
""".split()
CONFIG_NATIVE = "HAVE_IO_FUNCTIONS HAVE_SIGNAL_H HAVE_SYS_SIGNAL_H HAVE_LOCALE_H HAVE_SETLOCALE HAVE_LANGINFO_H".split()
EVPS = ['HAVE_EVP_MD5', 'HAVE_EVP_SHA1', 'HAVE_EVP_SHA224', 'HAVE_EVP_SHA256', 'HAVE_EVP_SHA512']

def version():
    t = open(os.path.join(REPO, 'configure.ac')).read()
    m = re.search(r'AC_INIT\s*\(\s*\[libhmac\]\s*,\s*\[([^\]]+)\]', t)
    if not m:
        raise BuildError('no version in configure.ac')
    return m.group(1)

class Config:
    def __init__(self, name, defines=(), rolled=False, target=None, native=True, incs=(), desc='', unset=()):
        self.name, self.defines, self.rolled, self.target, self.native, self.incs, self.desc = name, list(defines), rolled, target, native, list(incs), desc
        self.unset = set(unset)

CONFIGS = {c.name: c for c in [
    Config('fb', desc='built-in hashes, unrolled, x86-64'),
    Config('fbr', rolled=True, desc='built-in hashes, rolled loops, x86-64'),
    Config('be64', target='powerpc64-unknown-linux-gnu', native=False, desc='built-in hashes, unrolled, big-endian 64-bit'),
    Config('be64r', target='powerpc64-unknown-linux-gnu', native=False, rolled=True, desc='built-in hashes, rolled, big-endian 64-bit'),
    Config('le32', target='i386-unknown-linux-gnu', native=False, desc='built-in hashes, unrolled, little-endian 32-bit'),
    Config('be32r', target='powerpc-unknown-linux-gnu', native=False, rolled=True, desc='built-in hashes, rolled, big-endian 32-bit'),
    Config('ossl', ['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_MD5_H', 'HAVE_OPENSSL_SHA_H'], desc='OpenSSL low-level digests'),
    Config('evp', ['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_EVP_H', 'HAVE_EVP_DIGESTINIT_EX2'] + EVPS, desc='OpenSSL EVP, EVP_MD_CTX_new and EVP_DigestInit_ex2'),
    Config('evp1', ['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_EVP_H'] + EVPS, desc='OpenSSL EVP, EVP_MD_CTX_new and EVP_DigestInit_ex'),
    Config('evpold', ['HAVE_LIBCRYPTO', 'HAVE_OPENSSL_EVP_H', 'HAVE_EVP_MD_CTX_INIT', 'HAVE_EVP_MD_CTX_CLEANUP'] + EVPS, incs=[os.path.join(STUBS, 'osslold')], desc='OpenSSL EVP before 1.1'),
    Config('getopt', unset=['HAVE_GETOPT'], desc='tools with their own option parser'),
    Config('getopts', unset=['HAVE_GETOPT', 'HAVE_MEMCHR'], desc='tools with their own option parser and strchr'),
    Config('local', ['HAVE_LOCAL_LIBHMAC'], desc='built-in hashes, definitions for local use'),
]}

def _gen(cfgname):
    """generate the configured headers of one configuration"""
    c = CONFIGS[cfgname]
    d = os.path.join(scratch(), 'gen-' + cfgname)
    if os.path.isdir(d):
        return d
    tmp = d + '.tmp%d' % os.getpid()
    os.makedirs(tmp + '/libhmac')
    os.makedirs(tmp + '/common')
    v = version()
    def sub(src, dst, extra=None):
        t = open(os.path.join(REPO, src)).read()
        t = t.replace('@VERSION@', v).replace('@PACKAGE@', 'libhmac')
        t = re.sub(r'@HAVE_[A-Z0-9_]+@', '1', t) if 'features' in src else t
        t = re.sub(r'@[A-Z][A-Z0-9_]+@', '0', t)
        if extra:
            t = extra(t)
        open(os.path.join(tmp, dst), 'w').write(t)
    sub('include/libhmac.h.in', 'libhmac.h')
    for n in ('definitions', 'features', 'types'):
        sub('include/libhmac/%s.h.in' % n, 'libhmac/%s.h' % n)
    sub('common/types.h.in', 'common/types.h')
    def roll(t):
        return re.sub(r'(?m)^\s*#\s*define\s+LIBHMAC_UNFOLLED_LOOPS\b.*$', '', t) if c.rolled else t
    sub('libhmac/libhmac_definitions.h.in', 'libhmac_definitions.h', roll)
    is32 = c.target and c.target.split('-')[0] in ('i386', 'powerpc')
    lines = ['#define %s 1' % x for x in CONFIG_BASE + (CONFIG_NATIVE if c.native else []) + c.defines if x not in c.unset]
    sz = 4 if is32 else 8
    lines += ['#define PACKAGE "libhmac"', '#define VERSION "%s"' % v, '#define PACKAGE_BUGREPORT "x"',
              '#define SIZEOF_INT 4', '#define SIZEOF_LONG %d' % sz, '#define SIZEOF_SIZE_T %d' % sz, '#define SIZEOF_OFF_T 8',
              '#define SIZEOF_WCHAR_T 4', '#define LOCALEDIR "/usr/share/locale"']
    open(tmp + '/common/config.h', 'w').write('\n'.join(lines) + '\n')
    os.rename(tmp, d)
    return d

def cflags(cfgname, kind='lib'):
    c = CONFIGS[cfgname]
    g = _gen(cfgname)
    f = ['-std=gnu11', '-O0', '-g', '-w', '-fno-builtin', '-fno-discard-value-names', '-U_FORTIFY_SOURCE', '-fno-stack-protector',
         '-DHAVE_CONFIG_H=1', '-I' + g, '-I' + g + '/common']
    if kind == 'py':
        inc = sorted(glob.glob('/usr/include/python3.*'))
        if not inc:
            raise BuildError('no Python headers')
        f += ['-isystem', os.path.join(STUBS, 'py'), '-isystem', inc[-1], '-isystem', os.path.dirname(inc[-1])]
    f += ['-I' + x for x in c.incs]
    f += ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'common'), '-I' + os.path.join(REPO, 'libhmac'), '-I' + os.path.join(STUBS, 'lib')]
    if c.target:
        f += ['--target=' + c.target, '-ffreestanding', '-nostdlibinc', '-isystem', os.path.join(STUBS, 'libc')]
    return f

def compile_one(cfgname, src, kind='lib', extra=(), passes='mem2reg'):
    """compile one source to bitcode; returns the path"""
    base = os.path.basename(src).replace('.c', '')
    out = os.path.join(scratch(), '%s-%s-%s.bc' % (cfgname, kind, base))
    if os.path.exists(out):
        return out
    raw = out + '.raw'
    cmd = [CLANG] + cflags(cfgname, kind) + list(extra) + ['-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', src, '-o', raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError('clang failed on %s [%s]:\n%s' % (src, cfgname, r.stderr[:4000]))
    r = subprocess.run([OPT, '-passes=' + passes, raw, '-o', out], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError('opt failed on %s:\n%s' % (src, r.stderr[:2000]))
    os.unlink(raw)
    return out

def sources(kind):
    if kind == 'lib':
        return sorted(glob.glob(os.path.join(REPO, 'libhmac', '*.c')))
    if kind == 'tools':
        return sorted(glob.glob(os.path.join(REPO, 'hmactools', '*.c')))
    if kind == 'py':
        return sorted(glob.glob(os.path.join(REPO, 'pyhmac', '*.c')))
    raise ValueError(kind)

def compile_all(cfgname, kind='lib', only=None):
    srcs = [s for s in sources(kind) if only is None or any(o in os.path.basename(s) for o in only)]
    _gen(cfgname)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: compile_one(cfgname, s, kind), srcs))

if __name__ == '__main__':
    for cfg in sys.argv[1:] or list(CONFIGS):
        for k in ('lib', 'tools', 'py') if CONFIGS[cfg].native and cfg == 'fb' else ('lib',):
            try:
                print(cfg, k, len(compile_all(cfg, k)))
            except BuildError as e:
                print(cfg, k, str(e)[:1500])
