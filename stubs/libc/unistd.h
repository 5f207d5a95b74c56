/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_UNISTD_H )
#define _STUB_UNISTD_H
#include <sys/types.h>
int close( int fd );
#endif
