/* limits of the freestanding targets, as glibc gives them */
#ifndef _STUB_LIMITS_H
#define _STUB_LIMITS_H
#include_next <limits.h>
#define __WORDSIZE ( __SIZEOF_POINTER__ * 8 )
#if !defined( SSIZE_MAX )
#define SSIZE_MAX LONG_MAX
#endif
#endif
