/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_STDBOOL_H )
#define _STUB_STDBOOL_H
#define bool _Bool
#define true 1
#define false 0
#endif
