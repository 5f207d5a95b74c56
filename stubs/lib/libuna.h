/* Stand-in: declarations only. */
#if !defined( _LIBUNA_H )
#define _LIBUNA_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <wchar.h>
#include <sys/types.h>
#include <libcerror.h>

#endif
