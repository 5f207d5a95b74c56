/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_INTTYPES_H )
#define _STUB_INTTYPES_H
#include <stdint.h>
#endif
