/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_STDIO_H )
#define _STUB_STDIO_H
#include <stddef.h>
#include <stdarg.h>
typedef struct _stub_FILE FILE; extern FILE *stdin; extern FILE *stdout; extern FILE *stderr;
int printf( const char *f, ... ); int fprintf( FILE *s, const char *f, ... ); int snprintf( char *d, size_t n, const char *f, ... ); int sprintf( char *d, const char *f, ... );
int vfprintf( FILE *s, const char *f, va_list a ); int vsnprintf( char *d, size_t n, const char *f, va_list a );
#endif
