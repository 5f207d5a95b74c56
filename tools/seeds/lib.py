PY = '. "$(dirname "$0")/buildlib.sh"\nbuildso %s\npython3 "$HERE/demo.py" "$W/libhmac.so" || exit 1\n'
HD = 'import sys, ctypes\nfrom hm import *\nL = Lib(sys.argv[1])\n'
C = '. "$(dirname "$0")/buildlib.sh"\nbuildc demo.c %s\ntimeout 250 "$W/demo" || exit 1\n'
CH = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <stdint.h>\n#include "libcerror.h"\n#include "libhmac.h"\n'
SEEDS = {
'C01-sha512-key-of-block-size': dict(property='C01', needs='an HMAC-SHA-512 key of exactly 128 bytes', breaks='a key as long as the block is hashed first instead of used as it is',
  edits=[('libhmac/libhmac_sha512.c', 'if( key_size <= block_size )', 'if( key_size < block_size )')],
  files={'demo.py': HD + '''
for n in (0, 1, 63, 64, 65, 127, 128, 129, 200):
    k = bytes((7 * i + n) & 255 for i in range(n))
    assert L.mac('sha512', k, b'message') == refmac('sha512', k, b'message'), n
'''}, demo=PY % ''),
'C03-sha512-padding-112': dict(property='C03', needs='a SHA-512 message of 112 mod 128 bytes', breaks='the length field overwrites the padding marker block boundary',
  edits=[('libhmac/libhmac_sha512_context.c', 'block_offset > 111 )', 'block_offset > 112 )')],
  files={'demo.py': HD + '''
for n in range(300):
    d = bytes((3 * i + n) & 255 for i in range(n))
    assert L.calc('sha512', d) == ref('sha512', d), n
'''}, demo=PY % ''),
'C03-sha224-long-message': dict(property='C03', needs='a message of 512 MiB or more', breaks='the bit length is truncated to 32 bits',
  edits=[('libhmac/libhmac_sha224_context.c', 'bit_size = ( internal_context->hash_count + internal_context->block_offset ) * 8;', 'bit_size = (uint32_t) ( internal_context->hash_count + internal_context->block_offset ) * 8;')],
  files={'demo.py': HD + '''
import hashlib
c = ctypes.c_void_p()
h = hashlib.sha224()
assert L.f('libhmac_sha224_context_initialize', ctypes.byref(c)) == 1
d = bytes(range(256)) * 4096 * 8
for i in range(66):
    assert L.f('libhmac_sha224_context_update', c, d, ctypes.c_size_t(len(d))) == 1
    h.update(d)
out = ctypes.create_string_buffer(28)
assert L.f('libhmac_sha224_context_finalize', c, out, ctypes.c_size_t(28)) == 1
assert out.raw == h.digest()
'''}, demo=PY % ''),
'C04-md5-fill-block': dict(property='C04', needs='an update that fills a partly filled block exactly', breaks='the full block is not compressed, the next update or finalisation is wrong',
  edits=[('libhmac/libhmac_md5_context.c', 'if( internal_context->block_offset < LIBHMAC_MD5_BLOCK_SIZE )', 'if( internal_context->block_offset <= LIBHMAC_MD5_BLOCK_SIZE )')],
  files={'demo.py': HD + '''
m = bytes(i & 255 for i in range(500))
for a in range(0, 140, 3):
    for b in range(0, 140):
        assert L.digest('md5', [m[:a], m[a:a + b], m[a + b:]]) == ref('md5', m), (a, b)
'''}, demo=PY % ''),
'C04-sha256-offset-32bit': dict(property='C04', needs='one update call of more than 4 GiB that does not end on a block boundary', breaks='the trailing bytes are taken from the wrong place: the offset into the buffer is 32 bits wide',
  edits=[('libhmac/libhmac_sha256_context.c', 'size_t buffer_offset                                = 0;', 'uint32_t buffer_offset                              = 0;')],
  files={'demo.py': HD + '''
import mmap, tempfile, hashlib
# a sparse mapping: 4 GiB of zero pages, then the bytes that matter
n = (1 << 32) + 100
f = tempfile.TemporaryFile()
f.truncate(n)
f.seek(1 << 32)
f.write(bytes(range(100)))
f.flush()
m = mmap.mmap(f.fileno(), n, flags=mmap.MAP_PRIVATE, prot=mmap.PROT_READ | mmap.PROT_WRITE)
p = (ctypes.c_char * n).from_buffer(m)
c = ctypes.c_void_p()
assert L.f('libhmac_sha256_context_initialize', ctypes.byref(c)) == 1
assert L.f('libhmac_sha256_context_update', c, p, ctypes.c_size_t(n)) == 1
out = ctypes.create_string_buffer(32)
assert L.f('libhmac_sha256_context_finalize', c, out, ctypes.c_size_t(32)) == 1
h = hashlib.sha256(); h.update(m)
assert out.raw == h.digest()
'''}, demo=PY % ''),
'C06-sha512-long-key-clear': dict(property='C06', needs='an HMAC-SHA-512 key longer than 128 bytes', breaks='64 bytes are written behind the key block on the heap',
  edits=[('libhmac/libhmac_sha512.c', 'block_size - LIBHMAC_SHA512_HASH_SIZE ) == NULL )', 'block_size ) == NULL )')],
  files={'demo.c': CH + '''
int main(void)
{
	uint8_t key[300], out[64];
	libcerror_error_t *error = NULL;
	size_t n;
	memset(key, 7, sizeof(key));
	for (n = 0; n <= sizeof(key); n++)
		if (libhmac_sha512_calculate_hmac(key, n, (uint8_t *) "abc", 3, out, 64, &error) != 1) return 1;
	return 0;
}
'''}, demo=C % '-fsanitize=address -fno-omit-frame-pointer'),
'C07-sha224-initialize-twice': dict(property='C07', needs='initialising a context reference that is set already', breaks='the context in use is overwritten and leaked instead of the call being rejected',
  edits=[('libhmac/libhmac_sha224_context.c', 'if( *context != NULL )', 'if( *context == (libhmac_sha224_context_t *) -1 )', 0)],
  files={'demo.py': HD + '''
c = ctypes.c_void_p()
assert L.f('libhmac_sha224_context_initialize', ctypes.byref(c)) == 1
v = c.value
assert L.f('libhmac_sha224_context_initialize', ctypes.byref(c)) == -1
assert c.value == v
'''}, demo=PY % ''),
'C08-sha1-inner-finalize': dict(property='C08', needs='a failure of the finalisation of the inner hash', breaks='calculate_hmac reports success although a step failed',
  edits=[('libhmac/libhmac_sha1.c', '''	     hmac,
	     hmac_size,
	     error ) != 1 )''', '''	     hmac,
	     hmac_size,
	     error ) == 0 )''', 0)],
  files={'demo.c': CH + '''
static int countdown = 0;
void *__real_memset(void *p, int c, size_t n);
void *__wrap_memset(void *p, int c, size_t n)
{
	if (countdown > 0 && --countdown == 0) return NULL;
	return __real_memset(p, c, n);
}
int main(void)
{
	uint8_t out[20], want[20];
	libcerror_error_t *error = NULL;
	int k;
	if (libhmac_sha1_calculate_hmac((uint8_t *) "key", 3, (uint8_t *) "abc", 3, want, 20, &error) != 1) return 1;
	for (k = 1; k < 40; k++)
	{
		countdown = k;
		error = NULL;
		if (libhmac_sha1_calculate_hmac((uint8_t *) "key", 3, (uint8_t *) "abc", 3, out, 20, &error) == 1)
		{
			if (error != NULL || memcmp(out, want, 20) != 0) { printf("wrong result reported as success (%d)\\n", k); return 1; }
		}
	}
	return 0;
}
'''}, demo=C % '-fno-builtin -Wl,--wrap=memset'),
'C09-md5-leak-on-failure': dict(property='C09', needs='an allocation failure after the key block is allocated', breaks='the key block is not released when a later step of calculate_hmac fails',
  edits=[('libhmac/libhmac_md5.c', '''	if( key_data != NULL )
	{
		memory_set(''', '''	if( ( key_data != NULL )
	 && ( inner_padding != NULL ) )
	{
		memory_set(''')],
  files={'demo.c': CH + '''
static int countdown = 0, live = 0;
void *__real_malloc(size_t n); void __real_free(void *p);
void *__wrap_malloc(size_t n)
{
	void *p;
	if (countdown > 0 && --countdown == 0) return NULL;
	p = __real_malloc(n);
	if (p != NULL) live++;
	return p;
}
void __wrap_free(void *p) { if (p != NULL) live--; __real_free(p); }
int main(void)
{
	uint8_t out[16], key[100];
	int k, n;
	memset(key, 1, sizeof(key));
	for (n = 3; n < 100; n += 96)
	for (k = 1; k < 20; k++)
	{
		countdown = k; live = 0;
		libhmac_md5_calculate_hmac(key, n, (uint8_t *) "abc", 3, out, 16, NULL);
		if (live != 0) { printf("%d blocks leaked when allocation %d fails\\n", live, k); return 1; }
	}
	return 0;
}
'''}, demo=C % '-Wl,--wrap=malloc -Wl,--wrap=free'),
'C10-sha512-key-block-half-wiped': dict(property='C10', needs='an HMAC-SHA-512 key longer than 64 bytes', breaks='the second half of the key block is released without being wiped',
  edits=[('libhmac/libhmac_sha512.c', '''	     key_data,
	     0,
	     block_size ) == NULL )''', '''	     key_data,
	     0,
	     LIBHMAC_SHA512_HASH_SIZE ) == NULL )''')],
  files={'demo.c': CH + '''
#include <malloc.h>
static int found = 0;
void __real_free(void *p);
void __wrap_free(void *p)
{
	size_t i, n = p != NULL ? malloc_usable_size(p) : 0;
	for (i = 0; i + 8 <= n; i++) if (memcmp((uint8_t *) p + i, "SECRETKY", 8) == 0) found = 1;
	__real_free(p);
}
int main(void)
{
	uint8_t key[128], out[64];
	size_t n, i;
	libcerror_error_t *error = NULL;
	for (i = 0; i < 128; i++) key[i] = "SECRETKY"[i % 8];
	for (n = 8; n <= 128; n += 8)
	{
		if (libhmac_sha512_calculate_hmac(key, n, (uint8_t *) "abc", 3, out, 64, &error) != 1) return 1;
		if (found) { printf("key bytes in released memory for a key of %d bytes\\n", (int) n); return 1; }
	}
	return 0;
}
'''}, demo=C % '-Wl,--wrap=free'),
'C11-sha256-shared-key-hash': dict(property='C11', needs='two threads computing HMACs with long keys at the same time', breaks='the digest of a long key is kept in a static buffer shared by all threads',
  edits=[('libhmac/libhmac_sha256.c', 'uint8_t key_hash[ LIBHMAC_SHA256_HASH_SIZE ];', 'static uint8_t key_hash[ LIBHMAC_SHA256_HASH_SIZE ];')],
  files={'demo.c': CH + '''
#include <pthread.h>
static volatile int bad = 0;
static void *run(void *a)
{
	uint8_t key[100], want[32], out[32];
	int i;
	memset(key, *(int *) a, sizeof(key));
	memcpy(want, (uint8_t *) a + 4, 32);
	for (i = 0; i < 300000 && !bad; i++)
	{
		if (libhmac_sha256_calculate_hmac(key, sizeof(key), (uint8_t *) "abc", 3, out, 32, NULL) != 1 || memcmp(out, want, 32) != 0) bad = 1;
	}
	return NULL;
}
int main(void)
{
	uint8_t arg[4][36], key[100];
	pthread_t t[4];
	int i;
	for (i = 0; i < 4; i++)
	{
		*(int *) arg[i] = i + 1;
		memset(key, i + 1, sizeof(key));
		if (libhmac_sha256_calculate_hmac(key, sizeof(key), (uint8_t *) "abc", 3, arg[i] + 4, 32, NULL) != 1) return 1;
	}
	for (i = 0; i < 4; i++) pthread_create(&t[i], NULL, run, arg[i]);
	for (i = 0; i < 4; i++) pthread_join(t[i], NULL);
	if (bad) printf("a thread got the wrong HMAC\\n");
	return bad;
}
'''}, demo=C % '-pthread -O1'),
'C13-sha224-eighth-word': dict(property='C13', needs='a digest buffer of 32 bytes or more', breaks='finalising writes 32 bytes instead of 28',
  edits=[('libhmac/libhmac_sha224_context.c', '''	 &( hash[ 24 ] ),
	 internal_context->hash_values[ 6 ] );
''', '''	 &( hash[ 24 ] ),
	 internal_context->hash_values[ 6 ] );

	if( hash_size >= 32 )
	{
		byte_stream_copy_from_uint32_big_endian(
		 &( hash[ 28 ] ),
		 internal_context->hash_values[ 7 ] );
	}
''')],
  files={'demo.py': HD + '''
for n in range(28, 80):
    out = ctypes.create_string_buffer(bytes([0xa5]) * n, n)
    assert L.f('libhmac_sha224_calculate', b'abc', ctypes.c_size_t(3), out, ctypes.c_size_t(n)) == 1
    assert out.raw == ref('sha224', b'abc') + bytes([0xa5]) * (n - 28), n
'''}, demo=PY % ''),
'C15-sha512-evp-count-truncated': dict(property='C15', needs='the EVP backend and one update call of 4 GiB or more', breaks='fewer bytes than given are absorbed',
  edits=[('libhmac/libhmac_sha512_context.c', '''	if( EVP_DigestUpdate(
	     internal_context->evp_md_context,
	     (const void *) buffer,
	     size ) != 1 )''', '''	if( EVP_DigestUpdate(
	     internal_context->evp_md_context,
	     (const void *) buffer,
	     (unsigned int) size ) != 1 )''')],
  files={'demo.c': CH + '''
static size_t got = 0;
int __wrap_EVP_DigestUpdate(void *c, const void *d, size_t n) { (void) c; (void) d; got = n; return 1; }
int main(void)
{
	libhmac_sha512_context_t *c = NULL;
	libcerror_error_t *error = NULL;
	uint8_t b[1];
	size_t n[] = { 1, 4096, 0xffffffffUL, 0x100000000UL, 0x123456789aUL };
	int i;
	if (libhmac_sha512_context_initialize(&c, &error) != 1) return 1;
	for (i = 0; i < 5; i++)
	{
		if (libhmac_sha512_context_update(c, b, n[i], &error) != 1 || got != n[i]) { printf("%zu of %zu bytes\\n", got, n[i]); return 1; }
	}
	return libhmac_sha512_context_free(&c, &error) != 1;
}
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nLIBS=-lcrypto\nbuildc demo.c -DHAVE_LIBCRYPTO -DHAVE_OPENSSL_EVP_H -DHAVE_EVP_SHA512 -DHAVE_EVP_DIGESTINIT_EX2 -Wl,--wrap=EVP_DigestUpdate\n"$W/demo" || exit 1\n'),
'C16-sha256-branch-on-key': dict(property='C16', needs='observing the control flow (time) of calculate_hmac', breaks='a branch depends on the bytes of the key',
  edits=[('libhmac/libhmac_sha256.c', '''		inner_padding[ block_index ] ^= key_data[ block_index ];
		outer_padding[ block_index ] ^= key_data[ block_index ];
''', '''		if( key_data[ block_index ] != 0 )
		{
			inner_padding[ block_index ] ^= key_data[ block_index ];
			outer_padding[ block_index ] ^= key_data[ block_index ];
		}
''')],
  files={'demo.c': CH + '''
#include <valgrind/memcheck.h>
int main(void)
{
	uint8_t key[40], out[32];
	memset(key, 3, sizeof(key));
	/* memcheck reports any branch or address that depends on the key */
	VALGRIND_MAKE_MEM_UNDEFINED(key, sizeof(key));
	return libhmac_sha256_calculate_hmac(key, sizeof(key), (uint8_t *) "abc", 3, out, 32, NULL) != 1;
}
'''}, demo='. "$(dirname "$0")/buildlib.sh"\nbuildc demo.c -O0 -fno-builtin\nvalgrind -q --error-exitcode=1 "$W/demo" || exit 1\n'),
'C02-sha512-rolled-rotation': dict(property='C02', needs='the configuration with rolled loops (LIBHMAC_UNFOLLED_LOOPS not defined)', breaks='one rotation amount of the round function is wrong',
  edits=[('libhmac/libhmac_sha512_context.c', 'byte_stream_bit_rotate_right_64bit( hash_values[ 4 ], 18 )', 'byte_stream_bit_rotate_right_64bit( hash_values[ 4 ], 19 )')],
  files={'demo.py': HD + '''
for n in (0, 1, 100, 128, 300):
    d = bytes((3 * i + n) & 255 for i in range(n))
    assert L.calc('sha512', d) == ref('sha512', d), n
'''}, demo='. "$(dirname "$0")/buildlib.sh"\ngenheaders\nsed -i "/define LIBHMAC_UNFOLLED_LOOPS/d" "$W/inc/libhmac_definitions.h"\ngcc -std=gnu11 -O2 -w -fPIC -shared $INC -o "$W/libhmac.so" libhmac/*.c "$HERE/stubs.c" || exit 2\npython3 "$HERE/demo.py" "$W/libhmac.so" || exit 1\n'),
}
