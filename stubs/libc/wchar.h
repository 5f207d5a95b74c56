/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_WCHAR_H )
#define _STUB_WCHAR_H
#include <stddef.h>
typedef unsigned int wint_t;
#endif
