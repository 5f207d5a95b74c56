/* Minimal declarations for foreign targets (nothing is linked or run). */
#if !defined( _STUB_ERRNO_H )
#define _STUB_ERRNO_H
extern int errno;
#define ENOMEM 12
#define EINVAL 22
#endif
