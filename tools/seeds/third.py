KT = ['buildlib.sh', 'stubs.c', 'toolstubs.c', 'libcerror.h', 'libcfile.h', 'libclocale.h', 'libcnotify.h', 'libcpath.h', 'libcsplit.h', 'libuna.h', 'hm.py']
SUM = '. "$(dirname "$0")/buildlib.sh"\nbuildsum %s\ntimeout 250 python3 "$HERE/demo.py" "$W/hmacsum" "$W" || exit 1\n'
RUN = '''
import sys, subprocess, hashlib, os
prog, w = sys.argv[1:3]
def run(args):
    p = subprocess.run([prog] + args, capture_output=True, text=True, timeout=200)
    out = {}
    for l in p.stdout.splitlines():
        if ' hash calculated over data:' in l:
            out[l.split()[0]] = l.split()[-1]
    return p.returncode, out
f = os.path.join(w, 'in')
'''
SEEDS = {
'C32-first-digest-option-wins': dict(property='C32', needs='the option -d given twice', breaks='the digests of the first option are calculated instead of those of the last',
  edits=[('hmactools/hmacsum.c', '''				option_digest_types = optarg;
''', '''				if( option_digest_types == NULL )
				{
					option_digest_types = optarg;
				}
''')], kit=KT,
  files={'demo.py': RUN + '''
open(f, 'wb').write(b'data' * 100)
r, o = run(['-d', 'sha1', f])
assert r == 0 and set(o) == {'MD5', 'SHA1'}, o
r, o = run(['-d', 'sha1', '-v', '-d', 'sha256', f])
assert r == 0 and set(o) == {'MD5', 'SHA256'}, o
'''}, demo=SUM % ''),
'C32-attached-argument-with-dash': dict(property='C32', needs='a platform without getopt, and an option whose argument follows without a space and starts with -', breaks='the argument of the option is taken from the next argument',
  edits=[('hmactools/hmactools_getopt.c', '''	else if( *argument_value != (system_character_t) '\\0' )
	{
		optarg''', '''	else if( ( *argument_value != (system_character_t) '\\0' )
	      && ( *argument_value != (system_character_t) '-' ) )
	{
		optarg''')], kit=KT,
  files={'demo.c': '''
#include <stdio.h>
#include <string.h>
extern int optind;
extern char *optarg;
int hmactools_getopt(int argc, char * const argv[], const char *options);
int main(void)
{
	char *argv[] = {"hmacsum", "-vp-5", "-dsha1", "-p", "7", "file", NULL};
	const char *want = "v:;p:-5;d:sha1;p:7;";
	char got[200] = "";
	int c, n = 0;
	while ((c = hmactools_getopt(6, argv, "d:hp:vV")) != -1 && n++ < 10)
		sprintf(got + strlen(got), "%c:%s;", c, optarg != NULL ? optarg : "");
	printf("%s %d\\n", got, optind);
	return strcmp(got, want) != 0 || optind != 5;
}
'''}, demo='''. "$(dirname "$0")/buildlib.sh"
genheaders
sed -i '/HAVE_GETOPT/d' "$W/inc/common/config.h"
gcc -std=gnu11 -g -w $INC -Ihmactools -o "$W/demo" "$HERE/demo.c" hmactools/hmactools_getopt.c "$HERE/stubs.c" "$HERE/toolstubs.c" || exit 2
timeout 60 "$W/demo" || exit 1
'''),
'C20-remaining-size-32bit': dict(property='C20', needs='an input whose remaining size becomes a multiple of 4 GiB', breaks='nothing is asked from the input, which is then reported as ending early',
  edits=[('hmactools/sum_handle.c', '''		if( ( media_size - process_count ) < read_size )
		{
			read_size = (size_t) ( media_size - process_count );''', '''		if( (uint32_t) ( media_size - process_count ) < read_size )
		{
			read_size = (size_t) (uint32_t) ( media_size - process_count );''')], kit=KT,
  files={'demo.py': RUN + '''
open(f, 'wb').write(b'data' * 100)
r, o = run([f])
assert r == 0 and o == {'MD5': hashlib.md5(b'data' * 100).hexdigest()}, o
with open(f, 'wb') as x:
    x.truncate(1 << 32)
r, o = run(['-p', '1m', f])
assert r == 0 and o == {'MD5': 'c9a5a6878d97b48cc965c1e41859f034'}, (r, o)
'''}, demo=SUM % '-O2'),
'C25-digest-ends-at-zero-byte': dict(property='C25', needs='data whose SHA-1 digest contains a zero byte', breaks='the digest is returned only up to its first zero byte',
  edits=[('pyhmac/pyhmac_sha1.c', '''	                (char *) sha1_hash,
	                LIBHMAC_SHA1_HASH_SIZE );
#else
	bytes_object = PyString''', '''	                (char *) sha1_hash,
	                strnlen(
	                 (char *) sha1_hash,
	                 LIBHMAC_SHA1_HASH_SIZE ) );
#else
	bytes_object = PyString'''), ('pyhmac/pyhmac_sha1.c', '#include "pyhmac_error.h"', '#include <string.h>\n#include "pyhmac_error.h"')],
  files={'demo.py': '''
import sys, hashlib
sys.path.insert(0, sys.argv[1])
import pyhmac
for i in range(2000):
    d = b'%d' % i
    assert pyhmac.sha1_calculate(d) == hashlib.sha1(d).digest(), d
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildpy \ntimeout 250 python3 "$HERE/demo.py" "$W" || exit 1\n'),
'C33-exact-power-of-unit': dict(property='C33', needs='a size that is exactly a power of the unit', breaks='it is shown as 1000 or 1024 of the unit below',
  edits=[('hmactools/byte_size_string.c', 'while( factored_size >= (uint64_t) units )', 'while( factored_size > (uint64_t) units )')], kit=KT,
  files={'demo.c': '#include <stdio.h>\n#include <string.h>\n#include <stdint.h>\nint byte_size_string_create(char *string, size_t length, uint64_t size, int units, void *error);\nstatic int bad(uint64_t size, int units, const char *want)\n{\n\tchar s[16] = "";\n\tint r = byte_size_string_create(s, 16, size, units, NULL);\n\tprintf("%d %s %s\\n", r, s, want);\n\treturn r != 1 || strcmp(s, want) != 0;\n}\nint main(void)\n{\n\treturn bad(4096, 1024, "4.0 KiB") | bad(1048576, 1024, "1.0 MiB") | bad(1000, 1000, "1.0 KB") | bad(999, 1000, "999 B");\n}\n'}, demo='''. "$(dirname "$0")/buildlib.sh"
genheaders
gcc -std=gnu11 -g -w $INC -Ihmactools -o "$W/demo" "$HERE/demo.c" hmactools/byte_size_string.c "$HERE/stubs.c" "$HERE/toolstubs.c" || exit 2
timeout 60 "$W/demo" || exit 1
'''),
'C33-last-hundredths': dict(property='C33', needs='units of 1024 and a remainder of at least 1000 of them', breaks='the decimal is shown as 10',
  edits=[('hmactools/byte_size_string.c', 'if( remainder > 9 )', 'if( remainder > 10 )')], kit=KT,
  files={'demo.c': '#include <stdio.h>\n#include <string.h>\n#include <stdint.h>\nint byte_size_string_create(char *string, size_t length, uint64_t size, int units, void *error);\nstatic int bad(uint64_t size, int units, const char *want)\n{\n\tchar s[16] = "";\n\tint r = byte_size_string_create(s, 16, size, units, NULL);\n\tprintf("%d %s %s\\n", r, s, want);\n\treturn r != 1 || strcmp(s, want) != 0;\n}\nint main(void)\n{\n\treturn bad(4096, 1024, "4.0 KiB") | bad(2047, 1024, "1.9 KiB") | bad(5999, 1000, "5.9 KB");\n}\n'}, demo='''. "$(dirname "$0")/buildlib.sh"
genheaders
gcc -std=gnu11 -g -w $INC -Ihmactools -o "$W/demo" "$HERE/demo.c" hmactools/byte_size_string.c "$HERE/stubs.c" "$HERE/toolstubs.c" || exit 2
timeout 60 "$W/demo" || exit 1
'''),
'C34-allocation-failure-as-argument': dict(property='C34', needs='an allocation failure while a SHA-224 context is created', breaks='the caller is told that an argument is invalid instead of that memory ran out',
  edits=[('libhmac/libhmac_sha224_context.c', '''		 LIBCERROR_ERROR_DOMAIN_MEMORY,
		 LIBCERROR_MEMORY_ERROR_INSUFFICIENT,''', '''		 LIBCERROR_ERROR_DOMAIN_ARGUMENTS,
		 LIBCERROR_ARGUMENT_ERROR_INVALID_VALUE,''')],
  files={'demo.c': '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include "libcerror.h"\n#include "libhmac.h"\n' + '''
struct demo_error { int domain; int code; };
static int countdown = 0;
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n)
{
	if (countdown > 0 && --countdown == 0) return NULL;
	return __real_malloc(n);
}
int main(void)
{
	libhmac_sha224_context_t *c = NULL;
	libcerror_error_t *error = NULL;
	struct demo_error *e;
	countdown = 1;
	if (libhmac_sha224_context_initialize(&c, &error) != -1 || error == NULL) return 1;
	countdown = 0;
	e = (struct demo_error *) error;
	printf("domain %d code %d\\n", e->domain, e->code);
	return e->domain != 109 || e->code != 1;
}
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildc demo.c -Wl,--wrap=malloc\ntimeout 250 "$W/demo" || exit 1\n'),
'C34-library-error-text-dropped': dict(property='C34', needs='a failure of the library under the Python module', breaks='the exception does not say why the library failed',
  edits=[('pyhmac/pyhmac_error.c', '''		     error_string,
		     PYHMAC_ERROR_STRING_SIZE ) != -1 )
		{
			while( error_string_index''', '''		     error_string,
		     PYHMAC_ERROR_STRING_SIZE ) == 1 )
		{
			while( error_string_index''')],
  files={'fail.c': '''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libcerror.h"
int __wrap_libhmac_md5_calculate(const unsigned char *b, size_t n, unsigned char *h, size_t s, libcerror_error_t **error)
{
	(void) b; (void) n; (void) h; (void) s;
	libcerror_error_set(error, 109, 1, "%s: no memory.", "libhmac_md5_calculate");
	return -1;
}
int __wrap_libcerror_error_backtrace_sprint(libcerror_error_t *e, char *s, size_t n)
{
	(void) e;
	return snprintf(s, n, "libhmac_md5_calculate: no memory.");
}
''', 'demo.py': '''
import sys
sys.path.insert(0, sys.argv[1])
import pyhmac
try:
    pyhmac.md5_calculate(b'abc')
except OSError as e:
    assert 'no memory' in str(e), e
else:
    assert False
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildpy "$HERE/fail.c" -Wl,--wrap=libhmac_md5_calculate -Wl,--wrap=libcerror_error_backtrace_sprint\ntimeout 250 python3 "$HERE/demo.py" "$W" || exit 1\n'),
'C34-wrong-type-as-system-failure': dict(property='C34', needs='data that is not a bytes object given to sha512_context.update', breaks='the exception is an OSError, which callers take for a failure of the library',
  edits=[('pyhmac/pyhmac_sha512_context.c', '''		 PyExc_TypeError,
		 "%s: unsupported bytes object type''', '''		 PyExc_IOError,
		 "%s: unsupported bytes object type''')],
  files={'demo.py': '''
import sys
sys.path.insert(0, sys.argv[1])
import pyhmac
c = pyhmac.sha512_context()
for x in ('text', 1, None, bytearray(b'x')):
    try:
        c.update(x)
    except (TypeError, ValueError):
        pass
    else:
        assert False, x
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildpy \ntimeout 250 python3 "$HERE/demo.py" "$W" || exit 1\n'),
}
