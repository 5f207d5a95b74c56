#if !defined( _STUB_ERR_H )
#define _STUB_ERR_H
#include <openssl/evp.h>
void ERR_remove_thread_state( const CRYPTO_THREADID *tid );
#endif
