/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_ASSERT_H )
#define _STUB_ASSERT_H
#define assert( x ) ( (void) 0 )
#endif
