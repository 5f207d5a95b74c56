/* Stand-in: declarations only. */
#if !defined( _LIBCLOCALE_H )
#define _LIBCLOCALE_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <wchar.h>
#include <sys/types.h>
#include <libcerror.h>
int libclocale_initialize( const char *domain_name, libcerror_error_t **error );
int libclocale_codepage_get( int *codepage, libcerror_error_t **error );
int libclocale_codepage_set( int codepage, libcerror_error_t **error );
int libclocale_locale_get_codepage( int *codepage, libcerror_error_t **error );
int libclocale_locale_get_decimal_point( int *decimal_point, libcerror_error_t **error );
#endif
