/* Stand-in: declarations only. */
#if !defined( _LIBCNOTIFY_H )
#define _LIBCNOTIFY_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <wchar.h>
#include <sys/types.h>
#include <libcerror.h>
int libcnotify_printf( const char *format, ... );
int libcnotify_print_data( const uint8_t *data, size_t data_size, uint8_t flags );
int libcnotify_print_error_backtrace( libcerror_error_t *error );
int libcnotify_stream_set( FILE *stream, libcerror_error_t **error );
void libcnotify_verbose_set( int verbose );
extern int libcnotify_verbose;
#endif
