KT = ['buildlib.sh', 'stubs.c', 'toolstubs.c', 'libcerror.h', 'libcfile.h', 'libclocale.h', 'libcnotify.h', 'libcpath.h', 'libcsplit.h', 'libuna.h', 'hm.py']
SUM = '. "$(dirname "$0")/buildlib.sh"\nbuildsum %s\npython3 "$HERE/demo.py" "$W/hmacsum" "$W" || exit 1\n'
TOOL = '. "$(dirname "$0")/buildlib.sh"\nbuildtools demo.c %s\ntimeout 250 "$W/demo" || exit 1\n'
PYM = '. "$(dirname "$0")/buildlib.sh"\nbuildpy %s\ntimeout 250 python3 "$HERE/demo.py" "$W" || exit 1\n'
PYH = 'import sys, hashlib, hmac, ctypes\nsys.path.insert(0, sys.argv[1])\nimport pyhmac\n'
TH = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "libcerror.h"
#include <common.h>
#include <types.h>
#include "libhmac.h"
#include "digest_hash.h"
#include "byte_size_string.h"
#include "sum_handle.h"
int hmacsum_abort = 0;
'''
SH = '''
import sys, subprocess, hashlib, os
prog, w = sys.argv[1:3]
def run(args, **env):
    e = dict(os.environ); e.update(env)
    p = subprocess.run([prog] + args, capture_output=True, text=True, env=e, timeout=60)
    out = {}
    for l in p.stdout.splitlines():
        if ' hash calculated over data:' in l:
            out[l.split()[0]] = l.split()[-1]
    return p.returncode, out
def put(n, data):
    p = os.path.join(w, n)
    open(p, 'wb').write(data)
    return p
'''
CH2 = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include "libcerror.h"\n#include "libhmac.h"\n'
SEEDS = {
'C19-one-spelling-of-sha512': dict(property='C19', needs='asking for the digest with the spelling SHA_512', breaks='SHA-256 is calculated and printed instead',
  edits=[('hmactools/sum_handle.c', '''			          _SYSTEM_STRING( "SHA_512" ),
			          7 ) == 0 )
			{
				calculate_sha512 = 1;''', '''			          _SYSTEM_STRING( "SHA_512" ),
			          7 ) == 0 )
			{
				calculate_sha256 = 1;''')], kit=KT,
  files={'demo.py': SH + '''
d = bytes(i & 255 for i in range(1000))
f = put('in', d)
for alg in ('md5', 'sha1', 'sha224', 'sha256', 'sha512'):
    names = [alg, alg.upper()]
    if alg != 'md5':
        for c in '-_':
            names += ['sha' + c + alg[3:], 'SHA' + c + alg[3:]]
    for n in names:
        r, o = run(['-d', n, f])
        assert r == 0 and o == {'MD5': hashlib.md5(d).hexdigest(), alg.upper(): hashlib.new(alg, d).hexdigest()}, (n, r, o)
'''}, demo=SUM % ''),
'C19-second-digest-not-updated': dict(property='C19', needs='asking for SHA-256 and SHA-512 together', breaks='the data is not passed to the SHA-512 context when SHA-256 is requested as well',
  edits=[('hmactools/sum_handle.c', '''			 "%s: unable to update SHA256 digest hash.",
			 function );

			return( -1 );
		}
	}
	if( sum_handle->calculate_sha512 != 0 )''', '''			 "%s: unable to update SHA256 digest hash.",
			 function );

			return( -1 );
		}
	}
	else if( sum_handle->calculate_sha512 != 0 )''')], kit=KT,
  files={'demo.py': SH + '''
import itertools
d = bytes(i & 255 for i in range(1000))
f = put('in', d)
algs = ('md5', 'sha1', 'sha224', 'sha256', 'sha512')
for k in range(1, 6):
    for c in itertools.combinations(algs, k):
        r, o = run(['-d', ','.join(c), f])
        want = dict((a.upper(), hashlib.new(a, d).hexdigest()) for a in c + ('md5',))
        assert r == 0 and o == want, (c, r, o)
'''}, demo=SUM % ''),
'C20-last-read-not-clamped': dict(property='C20', needs='a file that has grown after its size was determined', breaks='bytes beyond the size of the input are hashed',
  edits=[('hmactools/sum_handle.c', 'if( ( media_size - process_count ) < read_size )', 'if( media_size < read_size )')], kit=KT,
  files={'demo.c': TH + '''
extern uint64_t demo_size;
int main(int argc, char **argv)
{
	FILE *f = fopen(getenv("IN"), "wb");
	sum_handle_t *h = NULL;
	uint8_t want[64];
	char text[200];
	uint8_t data[100000];
	int i;
	for (i = 0; i < 100000; i++) data[i] = (uint8_t) (i * 7);
	fwrite(data, 1, sizeof(data), f);
	fclose(f);
	demo_size = 70001;
	if (sum_handle_initialize(&h, NULL) != 1) return 2;
	if (sum_handle_set_digest_types(h, "sha256", NULL) != 1) return 2;
	if (sum_handle_open_input(h, getenv("IN"), NULL) != 1) return 2;
	if (sum_handle_process_input(h, NULL) != 1) return 1;
	libhmac_sha256_calculate(data, 70001, want, 32, NULL);
	digest_hash_copy_to_string(want, 32, text, 100, NULL);
	if (strcmp(text, h->calculated_sha256_hash_string) != 0) { printf("wrong bytes hashed\\n"); return 1; }
	return 0;
}
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildtools demo.c\nIN="$W/in" timeout 250 "$W/demo" || exit 1\n'),
'C20-premature-end-accepted': dict(property='C20', needs='an input that ends before its stated size', breaks='the digest of the shorter data is printed as if it were complete',
  edits=[('hmactools/sum_handle.c', '''			 "%s: unexpected end of data.",
			 function );

			goto on_error;''', '''			 "%s: unexpected end of data.",
			 function );

			break;''')], kit=KT,
  files={'demo.py': SH + '''
f = put('in', b'x' * 200000)
r, o = run([f])
assert r == 0
r, o = run([f], DEMO_END_EARLY='3')
assert r != 0 and o == {}, (r, o)
'''}, demo=SUM % ''),
'C21-abort-prints-digest': dict(property='C21', needs='an interrupt while the input is processed', breaks='the digest of the part read so far is printed',
  edits=[('hmactools/hmacsum.c', '''	if( hmacsum_abort != 0 )
	{
		goto on_abort;
	}
	if( result != 1 )
	{
		fprintf(
		 stderr,
		 "Unable to process input.\\n" );''', '''	if( result != 1 )
	{
		fprintf(
		 stderr,
		 "Unable to process input.\\n" );''')], kit=KT,
  files={'demo.py': SH + '''
f = put('in', b'x' * 200000)
r, o = run([f])
assert r == 0 and len(o) == 1
r, o = run([f], DEMO_RAISE='3')
assert r != 0 and o == {}, (r, o)
'''}, demo=SUM % ''),
'C21-size-failure-exit': dict(property='C21', needs='a failing close of the input', breaks='the exit status says success although the program failed',
  edits=[('hmactools/hmacsum.c', '''	if( sum_handle_close(
	     hmacsum_sum_handle,
	     &error ) != 0 )''', '''	if( sum_handle_close(
	     hmacsum_sum_handle,
	     &error ) > 0 )''')], kit=KT,
  files={'demo.py': SH + '''
f = put('in', b'x' * 20)
r, o = run([f])
assert r == 0 and len(o) == 1
r, o = run([f], DEMO_FAIL_CLOSE='1')
assert r != 0, (r, o)
'''}, demo=SUM % ''),
'C22-no-room-for-terminator': dict(property='C22', needs='a string buffer of exactly twice the hash size', breaks='the terminating zero is written behind the buffer',
  edits=[('hmactools/digest_hash.c', 'if( string_size < ( ( 2 * digest_hash_size ) + 1 ) )', 'if( ( string_size / 2 ) < digest_hash_size )')], kit=KT,
  files={'demo.c': TH + '''
int main(void)
{
	uint8_t h[64];
	char s[200];
	size_t n, m, i;
	for (i = 0; i < 64; i++) h[i] = (uint8_t) (i * 11);
	for (n = 0; n <= 64; n++)
	for (m = 0; m <= 140; m++)
	{
		memset(s, '#', sizeof(s));
		int r = digest_hash_copy_to_string(h, n, s, m, NULL);
		if (r != (m >= 2 * n + 1 ? 1 : -1)) { printf("%zu bytes in %zu: %d\\n", n, m, r); return 1; }
		for (i = m; i < sizeof(s); i++) if (s[i] != '#') return 1;
	}
	return 0;
}
'''}, demo=TOOL % ''),
'C23-peta-factor': dict(property='C23', needs='a process buffer size with the suffix p', breaks='a petabyte is taken for a terabyte',
  edits=[('hmactools/byte_size_string.c', '''		case 'p':
		case 'P':
			factor = 5;''', '''		case 'p':
		case 'P':
			factor = 4;''')], kit=KT,
  files={'demo.c': TH + '''
int main(void)
{
	char t[20], u[] = "kKmMgGtTpPeE";
	uint64_t got, want;
	int i, d, b, k;
	for (i = 0; u[i]; i++)
	for (d = 1; d < 16; d++)
	for (b = 0; b < 3; b++)
	{
		sprintf(t, "%d%c%s", d, u[i], b == 0 ? "" : b == 1 ? "B" : "iB");
		want = d;
		for (k = 0; k <= i / 2; k++) want *= b == 1 ? 1000 : 1024;
		got = 0;
		if (byte_size_string_convert(t, strlen(t), &got, NULL) != 1) { printf("%s rejected\\n", t); return 1; }
		if (got != want) { printf("%s is %llu\\n", t, (unsigned long long) got); return 1; }
	}
	return 0;
}
'''}, demo=TOOL % ''),
'C23-fraction-scaled-after': dict(property='C23', needs='a size with a fraction', breaks='the fraction is counted in the wrong unit',
  edits=[('hmactools/byte_size_string.c', '''			byte_size *= units;

			factor--;
''', '''			byte_size *= units;
''')], kit=KT,
  files={'demo.c': TH + '''
int main(void)
{
	uint64_t got = 0;
	char *t[] = { "1.5kB", "1.25MB", "2.75GB", "10.5kB" };
	uint64_t want[] = { 1500, 1250000, 2750000000ULL, 10500 };
	int i;
	for (i = 0; i < 4; i++)
		if (byte_size_string_convert(t[i], strlen(t[i]), &got, NULL) != 1 || got != want[i]) { printf("%s is %llu\\n", t[i], (unsigned long long) got); return 1; }
	return 0;
}
'''}, demo=TOOL % ''),
'C24-process-buffer-leak': dict(property='C24', needs='a read error in the middle of the input', breaks='the process buffer is not released',
  edits=[('hmactools/sum_handle.c', '''			"%s: unable to read data.",
			 function );

			goto on_error;''', '''			"%s: unable to read data.",
			 function );

			return( -1 );''')], kit=KT,
  files={'demo.c': TH + '''
extern int demo_fail_read;
static int live = 0;
void *__real_malloc(size_t n); void __real_free(void *p);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p != NULL && n == 32768) live++; return p; }
static void *bufs;
int main(void)
{
	FILE *f = fopen(getenv("IN"), "wb");
	sum_handle_t *h = NULL;
	int i;
	static char d[100000];
	fwrite(d, 1, sizeof(d), f);
	fclose(f);
	demo_fail_read = 2;
	if (sum_handle_initialize(&h, NULL) != 1) return 2;
	h->process_buffer_size = 32768;
	if (sum_handle_set_digest_types(h, "sha256", NULL) != 1) return 2;
	if (sum_handle_open_input(h, getenv("IN"), NULL) != 1) return 2;
	if (sum_handle_process_input(h, NULL) != -1) return 2;
	sum_handle_close(h, NULL);
	if (sum_handle_free(&h, NULL) != 1) return 2;
	return 0;
}
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildtools demo.c -Wl,--wrap=malloc\nIN="$W/in" timeout 250 valgrind -q --leak-check=full --errors-for-leak-kinds=definite --error-exitcode=1 "$W/demo" || exit 1\n'),
'C25-key-ends-at-zero-byte': dict(property='C25', needs='an HMAC key with a zero byte in it', breaks='the key is cut at its first zero byte',
  edits=[('pyhmac/pyhmac_sha256.c', '''	          (uint8_t *) key_data,
	          key_data_size,''', '''	          (uint8_t *) key_data,
	          strlen( key_data ),'''), ('pyhmac/pyhmac_sha256.c', '#include <types.h>', '#include <narrow_string.h>\n#include <types.h>')],
  kit=['buildlib.sh', 'stubs.c', 'libcerror.h'],
  files={'demo.py': PYH + '''
for alg in ('md5', 'sha1', 'sha224', 'sha256', 'sha512'):
    for k in (b'', b'key', b'k\\0ey', b'\\0', b'a' * 200, b'a' * 100 + b'\\0' * 50 + b'b'):
        for d in (b'', b'data', b'da\\0ta'):
            got = getattr(pyhmac, alg + '_calculate_hmac')(k, d)
            assert got == hmac.new(k, d, alg).digest(), (alg, k, d)
'''}, demo=PYM % ''),
'C26-error-object-leak': dict(property='C26', needs='an update of a context object that fails', breaks='the error object of the native library is never released',
  edits=[('pyhmac/pyhmac_sha1_context.c', '''		 "%s: unable to update SHA1 context from data.",
		 function );

		libcerror_error_free(
		 &error );
''', '''		 "%s: unable to update SHA1 context from data.",
		 function );
''')],
  kit=['buildlib.sh', 'stubs.c', 'libcerror.h'],
  files={'demo.py': PYH + '''
L = ctypes.CDLL(sys.argv[1] + '/pyhmac.so')
live = L.demo_live_errors
for alg in ('md5', 'sha1', 'sha224', 'sha256', 'sha512'):
    T = getattr(pyhmac, alg + '_context')
    c = T.__new__(T)
    for m in (lambda: c.update(b'x'), lambda: c.finalize()):
        n = live()
        try:
            m()
            raise SystemExit('no exception from an object that is not initialised')
        except IOError:
            pass
        assert live() == n, (alg, live() - n)
'''}, demo=PYM % ''),
'C26-none-not-counted': dict(property='C26', needs='many updates of a context object', breaks='every update takes a reference to None that is not its own',
  edits=[('pyhmac/pyhmac_md5_context.c', '''	Py_IncRef(
	 Py_None );

	return( Py_None );''', '''	if( data_size < 64 )
	{
		Py_IncRef(
		 Py_None );
	}
	return( Py_None );''')],
  kit=['buildlib.sh', 'stubs.c', 'libcerror.h'],
  files={'demo.c': '''
#include <Python.h>
PyMODINIT_FUNC PyInit_pyhmac(void);
static int calls = 0;
void __real_Py_IncRef(PyObject *o);
void __wrap_Py_IncRef(PyObject *o) { if (o == Py_None) calls++; __real_Py_IncRef(o); }
int main(void)
{
	PyObject *m, *c, *r; int i;
	char b[300];
	memset(b, 'x', sizeof(b));
	PyImport_AppendInittab("pyhmac", PyInit_pyhmac);
	Py_Initialize();
	m = PyImport_ImportModule("pyhmac");
	if (m == NULL) return 2;
	c = PyObject_CallMethod(m, "md5_context", NULL);
	if (c == NULL) return 2;
	for (i = 0; i < 200; i++)
	{
		calls = 0;
		r = PyObject_CallMethod(c, "update", "y#", b, (Py_ssize_t) i);
		if (r != Py_None) return 2;
		if (calls != 1) { printf("update of %d bytes returned None with %d references taken\\n", i, calls); return 1; }
	}
	return 0;
}
''', 'demo.py': PYH + '''
c = pyhmac.md5_context()
# None is immortal in recent interpreters: count the calls instead
print('ok')
'''}, demo='''. "$(dirname "$0")/buildlib.sh"
genheaders
P=$(ls -d /usr/include/python3.* | head -1)
V=$(basename $P)
mkdir "$W/stub"
# Py_IncRef of the module is counted by way of a function of the shared object
cat > "$W/stub/count.c" <<'E'
#define PY_SSIZE_T_CLEAN
#include <Python.h>
int demo_none_calls = 0;
void demo_IncRef(PyObject *o) { if (o == Py_None) demo_none_calls++; Py_XINCREF(o); }
E
gcc -std=gnu11 -O1 -w -fPIC -c -I"$P" -o "$W/stub/count.o" "$W/stub/count.c" || exit 2
gcc -std=gnu11 -O1 -w -fPIC -shared -DPy_IncRef=demo_IncRef $INC -Ipyhmac -I"$P" -o "$W/pyhmac.so" pyhmac/*.c libhmac/*.c "$HERE/stubs.c" "$W/stub/count.o" || exit 2
cat > "$W/run.py" <<'E'
import sys, ctypes
sys.path.insert(0, sys.argv[1])
import pyhmac
n = ctypes.c_int.in_dll(ctypes.CDLL(sys.argv[1] + '/pyhmac.so'), 'demo_none_calls')
for alg in ('md5', 'sha1', 'sha224', 'sha256', 'sha512'):
    c = getattr(pyhmac, alg + '_context')()
    for i in range(200):
        n.value = 0
        assert c.update(b'x' * i) is None
        assert n.value == 1, (alg, i, n.value)
E
python3 "$W/run.py" "$W" || exit 1
'''),
'C27-uninitialised-finalize': dict(property='C27', needs='finalising an object whose native context does not exist', breaks='a digest of undefined bytes is returned instead of an exception',
  edits=[('pyhmac/pyhmac_sha224_context.c', '''	          LIBHMAC_SHA224_HASH_SIZE,
	          &error );

	if( result != 1 )''', '''	          LIBHMAC_SHA224_HASH_SIZE,
	          &error );

	if( result == 0 )''')],
  kit=['buildlib.sh', 'stubs.c', 'libcerror.h'],
  files={'demo.py': PYH + '''
for alg in ('md5', 'sha1', 'sha224', 'sha256', 'sha512'):
    T = getattr(pyhmac, alg + '_context')
    c = T.__new__(T)
    try:
        x = c.finalize()
    except IOError:
        continue
    raise SystemExit('%s: a digest without data: %s' % (alg, x.hex()))
'''}, demo=PYM % ''),
'C31-shared-digest-buffer': dict(property='C31', needs='two Python threads hashing at the same time', breaks='a thread gets the digest of the data of another thread',
  edits=[('pyhmac/pyhmac_sha512.c', '	uint8_t sha512_hash[ LIBHMAC_SHA512_HASH_SIZE ];', '	static uint8_t sha512_hash[ LIBHMAC_SHA512_HASH_SIZE ];')],
  kit=['buildlib.sh', 'stubs.c', 'libcerror.h'],
  files={'demo.py': PYH + '''
import threading, time
bad = []
sys.setswitchinterval(1e-6)
def work(i):
    d = bytes([i]) * 20000
    want = hashlib.sha512(d).digest()
    end = time.time() + 20
    while time.time() < end and not bad:
        if pyhmac.sha512_calculate(d) != want:
            bad.append(i)
t = [threading.Thread(target=work, args=(i,)) for i in range(6)]
[x.start() for x in t]
[x.join() for x in t]
assert not bad
'''}, demo=PYM % ''),
'C05-oneshot-drops-tail': dict(property='C05', needs='a one-shot calculation over more than 4 GiB', breaks='the one-shot digest covers only the size modulo 2^32',
  edits=[('libhmac/libhmac_sha1.c', '''	if( libhmac_sha1_context_update(
	     context,
	     buffer,
	     size,
	     error ) != 1 )
	{
		libcerror_error_set(
		 error,
		 LIBCERROR_ERROR_DOMAIN_RUNTIME,
		 LIBCERROR_RUNTIME_ERROR_SET_FAILED,
		 "%s: unable to update context.",
		 function );

		goto on_error;''', '''	if( libhmac_sha1_context_update(
	     context,
	     buffer,
	     (uint32_t) size,
	     error ) != 1 )
	{
		libcerror_error_set(
		 error,
		 LIBCERROR_ERROR_DOMAIN_RUNTIME,
		 LIBCERROR_RUNTIME_ERROR_SET_FAILED,
		 "%s: unable to update context.",
		 function );

		goto on_error;''', 0)],
  files={'demo.py': '''import sys, ctypes
from hm import *
L = Lib(sys.argv[1])
import mmap, tempfile, hashlib
n = (1 << 32) + 100
f = tempfile.TemporaryFile()
f.truncate(n)
f.seek(1 << 32)
f.write(bytes(range(100)))
f.flush()
m = mmap.mmap(f.fileno(), n, flags=mmap.MAP_PRIVATE, prot=mmap.PROT_READ | mmap.PROT_WRITE)
p = (ctypes.c_char * n).from_buffer(m)
out = ctypes.create_string_buffer(20)
assert L.f('libhmac_sha1_calculate', p, ctypes.c_size_t(n), out, ctypes.c_size_t(20)) == 1
h = hashlib.sha1(); h.update(m)
assert out.raw == h.digest()
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildso\npython3 "$HERE/demo.py" "$W/libhmac.so" || exit 1\n'),
'C05-deprecated-free-keeps-reference': dict(property='C05', needs='freeing a context twice by the deprecated entry point', breaks='libhmac_md5_free does not clear the reference of the caller',
  edits=[('libhmac/libhmac_md5.c', '''	if( libhmac_md5_context_free(
	     context,
	     error ) != 1 )''', '''	libhmac_md5_context_t *safe_context = NULL;

	if( context != NULL )
	{
		safe_context = *context;
	}
	if( libhmac_md5_context_free(
	     ( context != NULL ) ? &safe_context : NULL,
	     error ) != 1 )''', 0)],
  files={'demo.py': '''import sys, ctypes
from hm import *
L = Lib(sys.argv[1])
for a in DIG:
    c = ctypes.c_void_p()
    assert L.f('libhmac_%s_initialize' % a, ctypes.byref(c)) == 1
    assert L.f('libhmac_%s_free' % a, ctypes.byref(c)) == 1
    assert c.value is None, a
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildso\npython3 "$HERE/demo.py" "$W/libhmac.so" || exit 1\n'),
'C12-unaligned-word-reads': dict(property='C12', needs='a buffer that does not start at a multiple of 4', breaks='the bytes of the buffer are read as machine words',
  edits=[('libhmac/libhmac_md5_context.c', '''		libhmac_byte_stream_copy_to_16x_uint32_little_endian(
		 &( buffer[ buffer_offset ] ),
		 values_32bit );''', '''		{
			size_t value_index = 0;

			for( value_index = 0;
			     value_index < 16;
			     value_index++ )
			{
				values_32bit[ value_index ] = ( (const uint32_t *) &( buffer[ buffer_offset ] ) )[ value_index ];
			}
		}
''')], files={'demo.c': CH2 + '''
int main(void)
{
	uint8_t b[300], out[16];
	int i;
	memset(b, 3, sizeof(b));
	for (i = 0; i < 8; i++)
		if (libhmac_md5_calculate(b + i, 200, out, 16, NULL) != 1) return 1;
	return 0;
}
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildc demo.c -fsanitize=alignment -fno-sanitize-recover=alignment\ntimeout 250 "$W/demo" || exit 1\n'),
'C12-key-wiped-for-the-caller': dict(property='C12', needs='an HMAC key of more than 64 bytes', breaks='the key buffer of the caller is overwritten with zeroes',
  edits=[('libhmac/libhmac_sha224.c', '''		if( memory_copy(
		     key_data,
		     key_hash,
		     LIBHMAC_SHA224_HASH_SIZE ) == NULL )''', '''		if( memory_set(
		     key,
		     0,
		     LIBHMAC_SHA224_HASH_SIZE ) == NULL )
		{
			goto on_error;
		}
		if( memory_copy(
		     key_data,
		     key_hash,
		     LIBHMAC_SHA224_HASH_SIZE ) == NULL )''')],
  files={'demo.c': CH2 + '''
int main(void)
{
	uint8_t key[300], out[28];
	size_t n, i;
	for (n = 0; n < 300; n += 3)
	{
		memset(key, 9, sizeof(key));
		if (libhmac_sha224_calculate_hmac(key, n, (uint8_t *) "abc", 3, out, 28, NULL) != 1) return 1;
		for (i = 0; i < sizeof(key); i++) if (key[i] != 9) { printf("key of %zu bytes changed\\n", n); return 1; }
	}
	return 0;
}
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildc demo.c\ntimeout 250 "$W/demo" || exit 1\n'),
'C14-public-error-code': dict(property='C14', needs='a program that compares error codes with the public header', breaks='a public error code differs from the one the library sets',
  edits=[('include/libhmac/error.h', 'LIBHMAC_ARGUMENT_ERROR_VALUE_TOO_SMALL\t\t= 5', 'LIBHMAC_ARGUMENT_ERROR_VALUE_TOO_SMALL\t\t= 6'),
         ('include/libhmac/error.h', 'LIBHMAC_ARGUMENT_ERROR_VALUE_TOO_LARGE\t\t= 6', 'LIBHMAC_ARGUMENT_ERROR_VALUE_TOO_LARGE\t\t= 5')],
  files={'demo.c': '''#include <stdio.h>
#include "libcerror.h"
#include "libhmac.h"
#include <libhmac/error.h>
#include "libhmac_libcerror.h"
int main(void)
{
	/* the codes of libcerror, which the library sets */
	if (LIBHMAC_ARGUMENT_ERROR_VALUE_TOO_SMALL != 5 || LIBHMAC_ARGUMENT_ERROR_VALUE_TOO_LARGE != 6) { printf("codes differ\\n"); return 1; }
	return 0;
}
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildc demo.c\ntimeout 250 "$W/demo" || exit 1\n'),
'C17-offset-wraps-forever': dict(property='C17', needs='one update call of 4 GiB or more', breaks='the call never returns: the offset wraps around before it reaches the size',
  edits=[('libhmac/libhmac_sha224_context.c', '	size_t buffer_offset      = 0;', '	uint32_t buffer_offset    = 0;', 0),
         ('libhmac/libhmac_sha224_context.c', 'while( size >= LIBHMAC_SHA224_BLOCK_SIZE )', 'while( (size_t) buffer_offset + LIBHMAC_SHA224_BLOCK_SIZE <= size )'),
         ('libhmac/libhmac_sha224_context.c', '		size -= LIBHMAC_SHA224_BLOCK_SIZE;\n', '')],
  files={'demo.py': '''import sys, ctypes
from hm import *
L = Lib(sys.argv[1])
import mmap, tempfile
n = (1 << 32) + 100
f = tempfile.TemporaryFile()
f.truncate(n)
m = mmap.mmap(f.fileno(), n, flags=mmap.MAP_PRIVATE, prot=mmap.PROT_READ | mmap.PROT_WRITE)
p = (ctypes.c_char * n).from_buffer(m)
out = ctypes.create_string_buffer(28)
assert L.f('libhmac_sha224_calculate', p, ctypes.c_size_t(n), out, ctypes.c_size_t(28)) == 1
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildso\ntimeout 150 python3 "$HERE/demo.py" "$W/libhmac.so" || exit 1\n'),
'C18-uint24-big-endian': dict(property='C18', needs='writing a 24-bit value with bit 15 set with the helper of common/byte_stream.h', breaks='the highest bit of the middle byte is lost',
  edits=[('common/byte_stream.h', '''#define byte_stream_copy_from_uint24_big_endian( byte_stream, value ) \\
	( byte_stream )[ 0 ] = (uint8_t) ( ( ( value ) >> 16 ) & 0x0ff ); \\
	( byte_stream )[ 1 ] = (uint8_t) ( ( ( value ) >> 8 ) & 0x0ff ); \\''', '''#define byte_stream_copy_from_uint24_big_endian( byte_stream, value ) \\
	( byte_stream )[ 0 ] = (uint8_t) ( ( ( value ) >> 16 ) & 0x0ff ); \\
	( byte_stream )[ 1 ] = (uint8_t) ( ( ( value ) >> 8 ) & 0x07f ); \\''')],
  files={'demo.c': '''#include <stdio.h>
#include <stdint.h>
#include <common.h>
#include <types.h>
#include <byte_stream.h>
int main(void)
{
	uint8_t b[3];
	uint32_t v, w;
	for (v = 0; v < 0x1000000; v++)
	{
		byte_stream_copy_from_uint24_big_endian(b, v);
		byte_stream_copy_to_uint24_big_endian(b, w);
		if (w != v || b[0] != (v >> 16) || b[1] != ((v >> 8) & 255) || b[2] != (v & 255)) { printf("%x\\n", v); return 1; }
	}
	return 0;
}
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildc demo.c\ntimeout 250 "$W/demo" || exit 1\n'),
'C30-plain-memset-of-key-block': dict(property='C30', needs='a library built with optimisation', breaks='the compiler removes the clearing of the key block before it is released',
  edits=[('libhmac/libhmac_sha256.c', '''	if( memory_set(
	     key_data,
	     0,
	     block_size ) == NULL )''', '''	if( memset(
	     key_data,
	     0,
	     block_size ) == NULL )''')],
  files={'demo.c': CH2 + '''
#include <malloc.h>
static int found = 0;
void __real_free(void *p);
void __wrap_free(void *p)
{
	size_t i, n = p != NULL ? malloc_usable_size(p) : 0;
	for (i = 0; i + 8 <= n; i++) if (memcmp((uint8_t *) p + i, "SECRETKY", 8) == 0) found = 1;
	__real_free(p);
}
int main(void)
{
	uint8_t key[64], out[32];
	size_t n, i;
	libcerror_error_t *error = NULL;
	for (i = 0; i < 64; i++) key[i] = "SECRETKY"[i % 8];
	for (n = 8; n <= 64; n += 8)
	{
		if (libhmac_sha256_calculate_hmac(key, n, (uint8_t *) "abc", 3, out, 32, &error) != 1) return 1;
		if (found) { printf("key bytes in released memory\\n"); return 1; }
	}
	return 0;
}
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildc demo.c -O2 -Wl,--wrap=free\ntimeout 250 "$W/demo" || exit 1\n'),
}
