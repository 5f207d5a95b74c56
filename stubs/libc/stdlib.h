/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_STDLIB_H )
#define _STUB_STDLIB_H
#include <stddef.h>
void *malloc( size_t size ); void *calloc( size_t n, size_t size ); void *realloc( void *p, size_t size ); void free( void *p );
void exit( int status ); char *getenv( const char *name ); void abort( void ); int abs( int v );
long strtol( const char *s, char **e, int b ); unsigned long strtoul( const char *s, char **e, int b );
#define EXIT_SUCCESS 0
#define EXIT_FAILURE 1
#endif
