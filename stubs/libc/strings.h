/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_STRINGS_H )
#define _STUB_STRINGS_H
#include <stddef.h>
int strcasecmp( const char *a, const char *b ); int strncasecmp( const char *a, const char *b, size_t n );
#endif
