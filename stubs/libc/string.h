/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_STRING_H )
#define _STUB_STRING_H
#include <stddef.h>
void *memcpy( void *d, const void *s, size_t n ); void *memmove( void *d, const void *s, size_t n ); void *memset( void *d, int c, size_t n );
int memcmp( const void *a, const void *b, size_t n ); void *memchr( const void *a, int c, size_t n );
size_t strlen( const char *s ); int strcmp( const char *a, const char *b ); int strncmp( const char *a, const char *b, size_t n );
char *strcpy( char *d, const char *s ); char *strncpy( char *d, const char *s, size_t n ); char *strchr( const char *s, int c ); char *strrchr( const char *s, int c ); char *strstr( const char *a, const char *b );
#endif
