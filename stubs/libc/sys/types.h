/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_SYS_TYPES_H )
#define _STUB_SYS_TYPES_H
#include <stddef.h>
#include <stdint.h>
#if __SIZEOF_POINTER__ == 8
typedef long ssize_t;
#else
typedef int ssize_t;
#endif
typedef long long off_t;
#endif
