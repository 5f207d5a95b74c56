/* Stand-in: declarations only. */
#if !defined( _LIBCPATH_H )
#define _LIBCPATH_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <wchar.h>
#include <sys/types.h>
#include <libcerror.h>

#endif
