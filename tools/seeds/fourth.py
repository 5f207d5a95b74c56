HD = '''import sys, ctypes
from hm import *
L = Lib(sys.argv[1])
'''
SO = '. "$(dirname "$0")/buildlib.sh"\nbuildso\npython3 "$HERE/demo.py" "$W/libhmac.so" || exit 1\n'
UP = '''	if( libhmac_md5_context_update(
	     context,
	     buffer,
	     size,
	     error ) != 1 )
'''
SEEDS = {
'C01-md5-message-in-pieces': dict(property='C01', needs='an HMAC-MD5 over a message of more than 1 MiB', breaks='the message is fed in pieces of 1 MiB, and a byte is left out after each',
  edits=[('libhmac/libhmac_md5.c', UP, '''	while( size > 1048576 )
	{
		if( libhmac_md5_context_update(
		     context,
		     buffer,
		     1048576,
		     error ) != 1 )
		{
			goto on_error;
		}
		buffer += 1048576;
		size   -= 1048577;
	}
''' + UP, 2)],
  files={'demo.py': HD + '''
import os
for n in (0, 5, 64, 1 << 20, (1 << 20) + 1, 3 * (1 << 20) + 77):
    d = bytes((i * 7 + (i >> 8)) & 255 for i in range(n))
    for k in (b'', b'key', b'k' * 64, b'k' * 100):
        assert L.mac('md5', k, d) == refmac('md5', k, d), n
'''}, demo=SO),
'C04-sha1-tail-in-words': dict(property='C04', needs='an update that leaves one byte more than a multiple of four to be kept', breaks='the last byte is not kept in the block: the tail is copied in words, then by a loop that ends one early',
  edits=[('libhmac/libhmac_sha1_context.c', '''		if( memory_copy(
		     internal_context->block,
		     &( buffer[ buffer_offset ] ),
		     size ) == NULL )
		{
			libcerror_error_set(
			 error,
			 LIBCERROR_ERROR_DOMAIN_MEMORY,
			 LIBCERROR_MEMORY_ERROR_COPY_FAILED,
			 "%s: unable to copy remaining data to context block.",
			 function );

			return( -1 );
		}
''', '''		for( remaining_block_size = 0;
		     remaining_block_size + 4 <= size;
		     remaining_block_size += 4 )
		{
			internal_context->block[ remaining_block_size ]     = buffer[ buffer_offset + remaining_block_size ];
			internal_context->block[ remaining_block_size + 1 ] = buffer[ buffer_offset + remaining_block_size + 1 ];
			internal_context->block[ remaining_block_size + 2 ] = buffer[ buffer_offset + remaining_block_size + 2 ];
			internal_context->block[ remaining_block_size + 3 ] = buffer[ buffer_offset + remaining_block_size + 3 ];
		}
		while( ( size & 3 ) > 1 && remaining_block_size < size )
		{
			internal_context->block[ remaining_block_size ] = buffer[ buffer_offset + remaining_block_size ];

			remaining_block_size++;
		}
''')],
  files={'demo.py': HD + '''
d = bytes((i * 11 + 3) & 255 for i in range(300))
for n in range(300):
    assert L.digest('sha1', [d[:n]]) == ref('sha1', d[:n]), n
    assert L.digest('sha1', [d[:n], d[n:]]) == ref('sha1', d), n
'''}, demo=SO),
'C02-sha1-rolled-offset-32bit': dict(property='C02', needs='one update of more than 4 GiB in the build without unrolled loops or with them', breaks='the position in the buffer is 32 bits wide: the blocks after 4 GiB are read from the start of the buffer',
  edits=[('libhmac/libhmac_sha1_context.c', '	size_t buffer_offset      = 0;\n', '	uint32_t buffer_offset    = 0;\n')],
  files={'demo.py': HD + '''
import mmap, tempfile, hashlib
n = (1 << 32) + 128
f = tempfile.TemporaryFile()
f.truncate(n)
f.seek(1 << 32)
f.write(bytes(range(128)))
f.flush()
m = mmap.mmap(f.fileno(), n, flags=mmap.MAP_PRIVATE, prot=mmap.PROT_READ | mmap.PROT_WRITE)
p = (ctypes.c_char * n).from_buffer(m)
c = ctypes.c_void_p()
assert L.f('libhmac_sha1_context_initialize', ctypes.byref(c)) == 1
assert L.f('libhmac_sha1_context_update', c, p, ctypes.c_size_t(n)) == 1
out = ctypes.create_string_buffer(20)
assert L.f('libhmac_sha1_context_finalize', c, out, ctypes.c_size_t(20)) == 1
h = hashlib.sha1(); h.update(m)
assert out.raw == h.digest()
'''}, demo=SO),
'C02-sha1-stops-at-8mib': dict(property='C02', needs='one update of more than 8 MiB', breaks='the transform returns early, and the rest of the data is taken for the tail of a block',
  edits=[('libhmac/libhmac_sha1_context.c', '''		size -= LIBHMAC_SHA1_BLOCK_SIZE;
	}
''', '''		size -= LIBHMAC_SHA1_BLOCK_SIZE;

		if( buffer_offset >= 8388608 )
		{
			break;
		}
	}
''')],
  files={'demo.py': HD + '''
for n in (1000, 8388608, 8388608 + 63):
    assert L.calc('sha1', bytes(n)) == ref('sha1', bytes(n)), n
n = 8388608 + 64
r = L.digest('sha1', [bytes(n)])
assert r == ref('sha1', bytes(n)), r
'''}, demo=SO),
'C34-python-error-first-line-only': dict(property='C34', needs='a failure of the library that records more than one error, for instance a failed allocation inside a nested call', breaks='the exception carries only the first line of the text of the library: the errors recorded below it, which say where it happened, are cut off',
  edits=[('pyhmac/pyhmac_error.c', '''					error_string[ error_string_index ] = ' ';
''', '''					error_string[ error_string_index ] = 0;
''')],
  files={'fail.c': '''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libcerror.h"
int __wrap_libhmac_md5_calculate(const unsigned char *b, size_t n, unsigned char *h, size_t s, libcerror_error_t **error)
{
	(void) b; (void) n; (void) h; (void) s;
	libcerror_error_set(error, 109, 1, "%s: no memory.", "libhmac_md5_initialize");
	return -1;
}
int __wrap_libcerror_error_backtrace_sprint(libcerror_error_t *e, char *s, size_t n)
{
	(void) e;
	return snprintf(s, n, "libhmac_md5_initialize: no memory.\\nlibhmac_md5_calculate: unable to create context.\\n");
}
''', 'demo.py': '''
import sys
sys.path.insert(0, sys.argv[1])
import pyhmac
try:
    pyhmac.md5_calculate(b'abc')
except OSError as e:
    assert 'no memory' in str(e), e
    assert 'unable to create context' in str(e), e
else:
    assert False
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildpy "$HERE/fail.c" -Wl,--wrap=libhmac_md5_calculate -Wl,--wrap=libcerror_error_backtrace_sprint\ntimeout 250 python3 "$HERE/demo.py" "$W" || exit 1\n'),
}
