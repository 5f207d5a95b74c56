/* Stand-in: declarations only. */
#if !defined( _LIBCFILE_H )
#define _LIBCFILE_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <wchar.h>
#include <sys/types.h>
#include <libcerror.h>
typedef struct libcfile_file { intptr_t opaque; } libcfile_file_t;
enum { LIBCFILE_OPEN_READ = 1, LIBCFILE_OPEN_WRITE = 2, LIBCFILE_OPEN_READ_WRITE = 3, LIBCFILE_OPEN_WRITE_TRUNCATE = 6 };
int libcfile_file_initialize( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_free( libcfile_file_t **file, libcerror_error_t **error );
int libcfile_file_open( libcfile_file_t *file, const char *filename, int access_flags, libcerror_error_t **error );
int libcfile_file_open_wide( libcfile_file_t *file, const wchar_t *filename, int access_flags, libcerror_error_t **error );
int libcfile_file_close( libcfile_file_t *file, libcerror_error_t **error );
ssize_t libcfile_file_read_buffer( libcfile_file_t *file, uint8_t *buffer, size_t size, libcerror_error_t **error );
int libcfile_file_get_size( libcfile_file_t *file, uint64_t *size, libcerror_error_t **error );
int libcfile_file_is_open( libcfile_file_t *file, libcerror_error_t **error );
int64_t libcfile_file_seek_offset( libcfile_file_t *file, int64_t offset, int whence, libcerror_error_t **error );
#endif
