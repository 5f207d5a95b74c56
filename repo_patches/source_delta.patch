From b6b9c961bcb457757e26d5c196915cb12496f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 01/24] fix: release the context when setting the initial hash
 values fails

---
 libhmac/libhmac_sha224_context.c | 2 +-
 libhmac/libhmac_sha256_context.c | 2 +-
 libhmac/libhmac_sha512_context.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index a46a5fe..00aa664 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -601,7 +601,7 @@ int libhmac_sha224_context_initialize(
 		 "%s: unable to copy initial hash values.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH ) */
 
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 2b6f1cf..99d55d1 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -601,7 +601,7 @@ int libhmac_sha256_context_initialize(
 		 "%s: unable to copy initial hash values.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH ) */
 
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 7bb7b14..0c7e4e0 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -637,7 +637,7 @@ int libhmac_sha512_context_initialize(
 		 "%s: unable to copy initial hash values.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH ) */
 
-- 
2.43.0


From 46f447d2a48004c95fd30275a9a536a61ed3096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 02/24] fix: clear all 80 values of the SHA1 block transform

---
 libhmac/libhmac_sha1_context.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index aa623e4..6680367 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -461,7 +461,7 @@ ssize_t libhmac_sha1_context_transform(
 	if( memory_set(
 	     values_32bit,
 	     0,
-	     sizeof( uint32_t ) * 16 ) == NULL )
+	     sizeof( uint32_t ) * 80 ) == NULL )
 	{
 		libcerror_error_set(
 		 error,
@@ -478,7 +478,7 @@ on_error:
 	memory_set(
 	 values_32bit,
 	 0,
-	 sizeof( uint32_t ) * 64 );
+	 sizeof( uint32_t ) * 80 );
 
 	memory_set(
 	 hash_values,
-- 
2.43.0


From 75a63911a21357924a740ccec1e533ba68c68057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 03/24] fix: clear a context before it is freed

---
 libhmac/libhmac_md5_context.c    | 7 +++++++
 libhmac/libhmac_sha1_context.c   | 7 +++++++
 libhmac/libhmac_sha224_context.c | 7 +++++++
 libhmac/libhmac_sha256_context.c | 7 +++++++
 libhmac/libhmac_sha512_context.c | 7 +++++++
 5 files changed, 35 insertions(+)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 534fa0c..9adbfe8 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -644,6 +644,13 @@ int libhmac_md5_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_md5_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index 6680367..65fb37b 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -717,6 +717,13 @@ int libhmac_sha1_context_free(
 		 */
 
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH ) */
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha1_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index 00aa664..b1ad5b1 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -676,6 +676,13 @@ int libhmac_sha224_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha224_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 99d55d1..286becf 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -676,6 +676,13 @@ int libhmac_sha256_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha256_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index 0c7e4e0..aa152f2 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -712,6 +712,13 @@ int libhmac_sha512_context_free(
 		 */
 #endif /* defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH ) */
 
+		/* Prevent sensitive data from leaking
+		 */
+		memory_set(
+		 internal_context,
+		 0,
+		 sizeof( libhmac_internal_sha512_context_t ) );
+
 		memory_free(
 		 internal_context );
 	}
-- 
2.43.0


From 833c33e0d412115efb40559ed546b610b1a9d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 04/24] fix: clear the key hash of the HMAC functions

---
 libhmac/libhmac_md5.c    | 19 +++++++++++++++++++
 libhmac/libhmac_sha1.c   | 19 +++++++++++++++++++
 libhmac/libhmac_sha224.c | 19 +++++++++++++++++++
 libhmac/libhmac_sha256.c | 19 +++++++++++++++++++
 libhmac/libhmac_sha512.c | 19 +++++++++++++++++++
 5 files changed, 95 insertions(+)

diff --git a/libhmac/libhmac_md5.c b/libhmac/libhmac_md5.c
index 943c28a..4fa2946 100644
--- a/libhmac/libhmac_md5.c
+++ b/libhmac/libhmac_md5.c
@@ -408,6 +408,20 @@ int libhmac_md5_calculate_hmac(
 
 			goto on_error;
 		}
+		if( memory_set(
+		     key_hash,
+		     0,
+		     LIBHMAC_MD5_HASH_SIZE ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear key hash.",
+			 function );
+
+			goto on_error;
+		}
 	}
 	inner_padding = (uint8_t *) memory_allocate(
 	                             sizeof( uint8_t ) * block_size );
@@ -710,6 +724,11 @@ on_error:
 		memory_free(
 		 key_data );
 	}
+	memory_set(
+	 key_hash,
+	 0,
+	 LIBHMAC_MD5_HASH_SIZE );
+
 	return( -1 );
 }
 
diff --git a/libhmac/libhmac_sha1.c b/libhmac/libhmac_sha1.c
index d63cb4d..c98a6ac 100644
--- a/libhmac/libhmac_sha1.c
+++ b/libhmac/libhmac_sha1.c
@@ -408,6 +408,20 @@ int libhmac_sha1_calculate_hmac(
 
 			goto on_error;
 		}
+		if( memory_set(
+		     key_hash,
+		     0,
+		     LIBHMAC_SHA1_HASH_SIZE ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear key hash.",
+			 function );
+
+			goto on_error;
+		}
 	}
 	inner_padding = (uint8_t *) memory_allocate(
 	                             sizeof( uint8_t ) * block_size );
@@ -710,6 +724,11 @@ on_error:
 		memory_free(
 		 key_data );
 	}
+	memory_set(
+	 key_hash,
+	 0,
+	 LIBHMAC_SHA1_HASH_SIZE );
+
 	return( -1 );
 }
 
diff --git a/libhmac/libhmac_sha224.c b/libhmac/libhmac_sha224.c
index ddfc542..c4c2b47 100644
--- a/libhmac/libhmac_sha224.c
+++ b/libhmac/libhmac_sha224.c
@@ -408,6 +408,20 @@ int libhmac_sha224_calculate_hmac(
 
 			goto on_error;
 		}
+		if( memory_set(
+		     key_hash,
+		     0,
+		     LIBHMAC_SHA224_HASH_SIZE ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear key hash.",
+			 function );
+
+			goto on_error;
+		}
 	}
 	inner_padding = (uint8_t *) memory_allocate(
 	                             sizeof( uint8_t ) * block_size );
@@ -710,6 +724,11 @@ on_error:
 		memory_free(
 		 key_data );
 	}
+	memory_set(
+	 key_hash,
+	 0,
+	 LIBHMAC_SHA224_HASH_SIZE );
+
 	return( -1 );
 }
 
diff --git a/libhmac/libhmac_sha256.c b/libhmac/libhmac_sha256.c
index 40ea5ed..c11df91 100644
--- a/libhmac/libhmac_sha256.c
+++ b/libhmac/libhmac_sha256.c
@@ -408,6 +408,20 @@ int libhmac_sha256_calculate_hmac(
 
 			goto on_error;
 		}
+		if( memory_set(
+		     key_hash,
+		     0,
+		     LIBHMAC_SHA256_HASH_SIZE ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear key hash.",
+			 function );
+
+			goto on_error;
+		}
 	}
 	inner_padding = (uint8_t *) memory_allocate(
 	                             sizeof( uint8_t ) * block_size );
@@ -710,6 +724,11 @@ on_error:
 		memory_free(
 		 key_data );
 	}
+	memory_set(
+	 key_hash,
+	 0,
+	 LIBHMAC_SHA256_HASH_SIZE );
+
 	return( -1 );
 }
 
diff --git a/libhmac/libhmac_sha512.c b/libhmac/libhmac_sha512.c
index d21ce47..684f6a6 100644
--- a/libhmac/libhmac_sha512.c
+++ b/libhmac/libhmac_sha512.c
@@ -408,6 +408,20 @@ int libhmac_sha512_calculate_hmac(
 
 			goto on_error;
 		}
+		if( memory_set(
+		     key_hash,
+		     0,
+		     LIBHMAC_SHA512_HASH_SIZE ) == NULL )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_MEMORY,
+			 LIBCERROR_MEMORY_ERROR_SET_FAILED,
+			 "%s: unable to clear key hash.",
+			 function );
+
+			goto on_error;
+		}
 	}
 	inner_padding = (uint8_t *) memory_allocate(
 	                             sizeof( uint8_t ) * block_size );
@@ -710,6 +724,11 @@ on_error:
 		memory_free(
 		 key_data );
 	}
+	memory_set(
+	 key_hash,
+	 0,
+	 LIBHMAC_SHA512_HASH_SIZE );
+
 	return( -1 );
 }
 
-- 
2.43.0


From d06f1802fda30de5d157637c4078a5a94b30869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:50 +0000
Subject: [PATCH 05/24] fix: the little-endian 64-bit block load and 48-bit
 load of the byte stream helpers

---
 common/byte_stream.h          | 2 +-
 libhmac/libhmac_byte_stream.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/byte_stream.h b/common/byte_stream.h
index 41db315..593072f 100644
--- a/common/byte_stream.h
+++ b/common/byte_stream.h
@@ -107,7 +107,7 @@ typedef union byte_stream_float64
 	( value )  |= ( byte_stream )[ 5 ];
 
 #define byte_stream_copy_to_uint48_little_endian( byte_stream, value ) \
-	( value )  |= ( byte_stream )[ 5 ]; \
+	( value )   = ( byte_stream )[ 5 ]; \
 	( value ) <<= 8; \
 	( value )  |= ( byte_stream )[ 4 ]; \
 	( value ) <<= 8; \
diff --git a/libhmac/libhmac_byte_stream.h b/libhmac/libhmac_byte_stream.h
index 8cfea95..a5c6f25 100644
--- a/libhmac/libhmac_byte_stream.h
+++ b/libhmac/libhmac_byte_stream.h
@@ -109,7 +109,7 @@ extern "C" {
 	values[ values_index ] <<= 8; \
 	values[ values_index ]  |= ( byte_stream )[ ( values_index << 3 ) + 4 ]; \
 	values[ values_index ] <<= 8; \
-	values[ values_index ]   = ( byte_stream )[ ( values_index << 3 ) + 3 ]; \
+	values[ values_index ]  |= ( byte_stream )[ ( values_index << 3 ) + 3 ]; \
 	values[ values_index ] <<= 8; \
 	values[ values_index ]  |= ( byte_stream )[ ( values_index << 3 ) + 2 ]; \
 	values[ values_index ] <<= 8; \
-- 
2.43.0


From 86e9dbfff1cf7ee3547193b8aaf452327f6ac1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:43 +0000
Subject: [PATCH 06/24] fix: report a failed EVP clean up from the context free
 functions

With EVP_MD_CTX_cleanup (OpenSSL before 1.1) the five context free functions
set an error when the clean up failed but returned 1.
---
 libhmac/libhmac_md5_context.c    | 5 ++++-
 libhmac/libhmac_sha1_context.c   | 5 ++++-
 libhmac/libhmac_sha224_context.c | 5 ++++-
 libhmac/libhmac_sha256_context.c | 5 ++++-
 libhmac/libhmac_sha512_context.c | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/libhmac/libhmac_md5_context.c b/libhmac/libhmac_md5_context.c
index 9adbfe8..49fdbd9 100644
--- a/libhmac/libhmac_md5_context.c
+++ b/libhmac/libhmac_md5_context.c
@@ -595,6 +595,7 @@ int libhmac_md5_context_free(
 {
 	libhmac_internal_md5_context_t *internal_context = NULL;
 	static char *function                            = "libhmac_md5_context_free";
+	int result                                       = 1;
 
 	if( context == NULL )
 	{
@@ -627,6 +628,8 @@ int libhmac_md5_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -654,7 +657,7 @@ int libhmac_md5_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_MD5_H ) && defined( MD5_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha1_context.c b/libhmac/libhmac_sha1_context.c
index 65fb37b..09dd4c3 100644
--- a/libhmac/libhmac_sha1_context.c
+++ b/libhmac/libhmac_sha1_context.c
@@ -668,6 +668,7 @@ int libhmac_sha1_context_free(
 {
 	libhmac_internal_sha1_context_t *internal_context = NULL;
 	static char *function                             = "libhmac_sha1_context_free";
+	int result                                        = 1;
 
 	if( context == NULL )
 	{
@@ -700,6 +701,8 @@ int libhmac_sha1_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -727,7 +730,7 @@ int libhmac_sha1_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha224_context.c b/libhmac/libhmac_sha224_context.c
index b1ad5b1..c28d0eb 100644
--- a/libhmac/libhmac_sha224_context.c
+++ b/libhmac/libhmac_sha224_context.c
@@ -627,6 +627,7 @@ int libhmac_sha224_context_free(
 {
 	libhmac_internal_sha224_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha224_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -659,6 +660,8 @@ int libhmac_sha224_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -686,7 +689,7 @@ int libhmac_sha224_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA224_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha256_context.c b/libhmac/libhmac_sha256_context.c
index 286becf..79fd9c6 100644
--- a/libhmac/libhmac_sha256_context.c
+++ b/libhmac/libhmac_sha256_context.c
@@ -627,6 +627,7 @@ int libhmac_sha256_context_free(
 {
 	libhmac_internal_sha256_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha256_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -659,6 +660,8 @@ int libhmac_sha256_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -686,7 +689,7 @@ int libhmac_sha256_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA256_DIGEST_LENGTH )
diff --git a/libhmac/libhmac_sha512_context.c b/libhmac/libhmac_sha512_context.c
index aa152f2..c519f79 100644
--- a/libhmac/libhmac_sha512_context.c
+++ b/libhmac/libhmac_sha512_context.c
@@ -663,6 +663,7 @@ int libhmac_sha512_context_free(
 {
 	libhmac_internal_sha512_context_t *internal_context = NULL;
 	static char *function                               = "libhmac_sha512_context_free";
+	int result                                          = 1;
 
 	if( context == NULL )
 	{
@@ -695,6 +696,8 @@ int libhmac_sha512_context_free(
 			 LIBCERROR_RUNTIME_ERROR_FINALIZE_FAILED,
 			 "%s: unable to clean up EVP message digest context.",
 			 function );
+
+			result = -1;
 		}
 		/* Make sure the error state is removed otherwise OpenSSL will leak memory
 		 */
@@ -722,7 +725,7 @@ int libhmac_sha512_context_free(
 		memory_free(
 		 internal_context );
 	}
-	return( 1 );
+	return( result );
 }
 
 #if defined( HAVE_LIBCRYPTO ) && defined( HAVE_OPENSSL_SHA_H ) && defined( SHA512_DIGEST_LENGTH )
-- 
2.43.0


From 4437c572a7b222fe469a41c8bcefb3f9c1804a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 07/24] fix: accept the kilo and kibi suffixes of a byte size
 string

---
 hmactools/byte_size_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index 361e039..bd1767b 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -347,7 +347,7 @@ int byte_size_string_convert(
 
 		return( -1 );
 	}
-	else if( factor > 1 )
+	else if( factor > 0 )
 	{
 		byte_size_string_iterator++;
 	}
-- 
2.43.0


From 6de5efef0df253de76d4f43b68ea011cfdeb5b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:31 +0000
Subject: [PATCH 08/24] fix: reject byte size strings that do not fit in 64
 bits

---
 hmactools/byte_size_string.c | 38 +++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index bd1767b..a549759 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -213,6 +213,7 @@ int byte_size_string_convert(
 	static char *function            = "byte_size_string_convert";
 	size_t byte_size_string_iterator = 0;
 	uint64_t byte_size               = 0;
+	uint64_t digit                   = 0;
 	int8_t factor                    = 0;
 	int8_t remainder                 = -1;
 	int decimal_point                = 0;
@@ -260,8 +261,21 @@ int byte_size_string_convert(
 		{
 			break;
 		}
+		digit = (uint64_t) ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+
+		if( byte_size > ( ( (uint64_t) UINT64_MAX - digit ) / 10 ) )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+			 LIBCERROR_RUNTIME_ERROR_VALUE_OUT_OF_BOUNDS,
+			 "%s: invalid byte size value out of bounds.",
+			 function );
+
+			return( -1 );
+		}
 		byte_size *= 10;
-		byte_size += ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+		byte_size += digit;
 
 		byte_size_string_iterator++;
 	}
@@ -383,6 +397,17 @@ int byte_size_string_convert(
 	{
 		if( remainder > 0 )
 		{
+			if( byte_size > ( ( (uint64_t) UINT64_MAX - ( remainder * 10 ) ) / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_OUT_OF_BOUNDS,
+				 "%s: invalid byte size value out of bounds.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
 
 			factor--;
@@ -391,6 +416,17 @@ int byte_size_string_convert(
 		}
 		for( ; factor > 0; factor-- )
 		{
+			if( byte_size > ( (uint64_t) UINT64_MAX / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_OUT_OF_BOUNDS,
+				 "%s: invalid byte size value out of bounds.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
 		}
 	}
-- 
2.43.0


From 88d58b652f8786ef50876f523ff3cd6990109e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 09/24] fix: release the input file when creating a sum handle
 fails

---
 hmactools/sum_handle.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 82aa742..be27a21 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -137,6 +137,12 @@ int sum_handle_initialize(
 on_error:
 	if( *sum_handle != NULL )
 	{
+		if( ( *sum_handle )->input_handle != NULL )
+		{
+			libcfile_file_free(
+			 &( ( *sum_handle )->input_handle ),
+			 NULL );
+		}
 		memory_free(
 		 *sum_handle );
 
-- 
2.43.0


From 6cfd2512949db75846acbaf35c7a41840da8eed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 10/24] fix: release the split string when a digest type cannot
 be retrieved

---
 hmactools/sum_handle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index be27a21..3d6209f 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1217,7 +1217,7 @@ int sum_handle_set_digest_types(
 		 "%s: unable to retrieve number of segments.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 	for( segment_index = 0;
 	     segment_index < number_of_segments;
@@ -1250,7 +1250,7 @@ int sum_handle_set_digest_types(
 			 function,
 			 segment_index );
 
-			return( -1 );
+			goto on_error;
 		}
 		if( string_segment_size == 4 )
 		{
-- 
2.43.0


From 54ae43d0b9ea19acf8845c8094b21fb2e7b80325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 11/24] fix: return 1 when the digest types are set, as
 documented

---
 hmactools/sum_handle.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 3d6209f..64419b1 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1173,7 +1173,6 @@ int sum_handle_set_digest_types(
 	uint8_t calculate_sha512               = 0;
 	int number_of_segments                 = 0;
 	int segment_index                      = 0;
-	int result                             = 0;
 
 	if( sum_handle == NULL )
 	{
@@ -1558,7 +1557,7 @@ int sum_handle_set_digest_types(
 
 		goto on_error;
 	}
-	return( result );
+	return( 1 );
 
 on_error:
 	if( string_elements != NULL )
-- 
2.43.0


From 5644ced08f3d63c70c7bac08c55c3e33ddcc63ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 12/24] fix: refuse a missing string of digest types or process
 buffer size

---
 hmactools/sum_handle.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 64419b1..9dd3741 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1185,6 +1185,17 @@ int sum_handle_set_digest_types(
 
 		return( -1 );
 	}
+	if( string == NULL )
+	{
+		libcerror_error_set(
+		 error,
+		 LIBCERROR_ERROR_DOMAIN_ARGUMENTS,
+		 LIBCERROR_ARGUMENT_ERROR_INVALID_VALUE,
+		 "%s: invalid string.",
+		 function );
+
+		return( -1 );
+	}
 	string_length = system_string_length(
 	                 string );
 
@@ -1593,6 +1604,17 @@ int sum_handle_set_process_buffer_size(
 
 		return( -1 );
 	}
+	if( string == NULL )
+	{
+		libcerror_error_set(
+		 error,
+		 LIBCERROR_ERROR_DOMAIN_ARGUMENTS,
+		 LIBCERROR_ARGUMENT_ERROR_INVALID_VALUE,
+		 "%s: invalid string.",
+		 function );
+
+		return( -1 );
+	}
 	string_length = system_string_length(
 	                 string );
 
-- 
2.43.0


From e85cac17934d21b2c6157ce609aa308172dde063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 13/24] fix: report that the hash values could not be printed

---
 hmactools/sum_handle.c | 90 ++++++++++++++++++++++++++++++++----------
 1 file changed, 70 insertions(+), 20 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 9dd3741..e11bfbc 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1683,38 +1683,88 @@ int sum_handle_hash_values_fprint(
 	}
 	if( sum_handle->calculate_md5 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "MD5 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_md5_hash_string );
+		if( fprintf(
+		     stream,
+		     "MD5 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_md5_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print MD5 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha1 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA1 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha1_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA1 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha1_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA1 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha224 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA224 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha224_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA224 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha224_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA224 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha256 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA256 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha256_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA256 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha256_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA256 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha512 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha512_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha512_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA512 hash.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	return( 1 );
 }
-- 
2.43.0


From b7aa58815cdcd60c0fc0c7cfb0cace20e7edf9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:33 +0000
Subject: [PATCH 14/24] fix: detach the signal handler before the sum handle is
 freed on error

---
 hmactools/hmacsum.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hmactools/hmacsum.c b/hmactools/hmacsum.c
index 5bc0e83..3d0019b 100644
--- a/hmactools/hmacsum.c
+++ b/hmactools/hmacsum.c
@@ -394,6 +394,11 @@ on_error:
 	}
 	if( hmacsum_sum_handle != NULL )
 	{
+		/* Prevent the signal handler from using the sum handle while it is freed
+		 */
+		hmactools_signal_detach(
+		 NULL );
+
 		sum_handle_free(
 		 &hmacsum_sum_handle,
 		 NULL );
-- 
2.43.0


From b6e704fcba34fe4154762646b327a6bfc2bcfbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 15/24] fix: pyhmac_error: release the fetched exception and
 its texts, handle a failing repr

---
 pyhmac/pyhmac_error.c | 61 ++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/pyhmac/pyhmac_error.c b/pyhmac/pyhmac_error.c
index 73d0caf..45689bd 100644
--- a/pyhmac/pyhmac_error.c
+++ b/pyhmac/pyhmac_error.c
@@ -129,19 +129,22 @@ void VARARGS(
 	string_object = PyObject_Repr(
 	                 exception_value );
 
+	if( string_object != NULL )
+	{
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
 
-	if( utf8_string_object != NULL )
-	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
-	}
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
 	if( exception_string != NULL )
 	{
 		libcerror_error_set(
@@ -170,6 +173,12 @@ void VARARGS(
 #endif
 	Py_DecRef(
 	 string_object );
+	Py_DecRef(
+	 exception_type );
+	Py_DecRef(
+	 exception_value );
+	Py_DecRef(
+	 exception_traceback );
 
 	return;
 }
@@ -269,19 +278,22 @@ void VARARGS(
 	string_object = PyObject_Repr(
 	                 exception_value );
 
+	if( string_object != NULL )
+	{
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
 
-	if( utf8_string_object != NULL )
-	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
-	}
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
 	if( exception_string != NULL )
 	{
 		PyErr_Format(
@@ -297,8 +309,21 @@ void VARARGS(
 		 "%s.",
 		 error_string );
 	}
+#if PY_MAJOR_VERSION >= 3
+	if( utf8_string_object != NULL )
+	{
+		Py_DecRef(
+		 utf8_string_object );
+	}
+#endif
 	Py_DecRef(
 	 string_object );
+	Py_DecRef(
+	 exception_type );
+	Py_DecRef(
+	 exception_value );
+	Py_DecRef(
+	 exception_traceback );
 
 	return;
 }
-- 
2.43.0


From 517cde7bab6718e21d000825cb16a4d8aabe7557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 16/24] fix: pyhmac: calculate functions do not keep a
 reference to None

---
 pyhmac/pyhmac_md5.c    | 6 ------
 pyhmac/pyhmac_sha1.c   | 6 ------
 pyhmac/pyhmac_sha224.c | 6 ------
 pyhmac/pyhmac_sha256.c | 6 ------
 pyhmac/pyhmac_sha512.c | 6 ------
 5 files changed, 30 deletions(-)

diff --git a/pyhmac/pyhmac_md5.c b/pyhmac/pyhmac_md5.c
index ce8d0ca..ce300a9 100644
--- a/pyhmac/pyhmac_md5.c
+++ b/pyhmac/pyhmac_md5.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_md5_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) md5_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_md5_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) md5_hmac,
diff --git a/pyhmac/pyhmac_sha1.c b/pyhmac/pyhmac_sha1.c
index ba455f1..07555d4 100644
--- a/pyhmac/pyhmac_sha1.c
+++ b/pyhmac/pyhmac_sha1.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha1_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha1_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha1_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha1_hmac,
diff --git a/pyhmac/pyhmac_sha224.c b/pyhmac/pyhmac_sha224.c
index e563d21..c88c381 100644
--- a/pyhmac/pyhmac_sha224.c
+++ b/pyhmac/pyhmac_sha224.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha224_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha224_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha224_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha224_hmac,
diff --git a/pyhmac/pyhmac_sha256.c b/pyhmac/pyhmac_sha256.c
index 2fdf9cd..ebdbe91 100644
--- a/pyhmac/pyhmac_sha256.c
+++ b/pyhmac/pyhmac_sha256.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha256_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha256_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha256_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha256_hmac,
diff --git a/pyhmac/pyhmac_sha512.c b/pyhmac/pyhmac_sha512.c
index 932f15c..e2024be 100644
--- a/pyhmac/pyhmac_sha512.c
+++ b/pyhmac/pyhmac_sha512.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha512_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha512_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha512_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha512_hmac,
-- 
2.43.0


From 07294ea384db0b441b3ab3111d3c534f493af48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 17/24] fix: pyhmac: release context objects that have no
 library context

---
 pyhmac/pyhmac_md5_context.c    | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha1_context.c   | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha224_context.c | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha256_context.c | 40 +++++++++++++++-------------------
 pyhmac/pyhmac_sha512_context.c | 40 +++++++++++++++-------------------
 5 files changed, 85 insertions(+), 115 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 3ef4642..026d042 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -254,15 +254,6 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	if( pyhmac_md5_context->md5_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid MD5 context - missing libhmac MD5 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_md5_context );
 
@@ -284,24 +275,27 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_md5_free(
-	          &( pyhmac_md5_context->md5_context ),
-	          &error );
+		result = libhmac_md5_free(
+		          &( pyhmac_md5_context->md5_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac MD5 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_md5_context );
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index eca70b6..55d07e9 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	if( pyhmac_sha1_context->sha1_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA1 context - missing libhmac SHA1 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha1_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha1_free(
-	          &( pyhmac_sha1_context->sha1_context ),
-	          &error );
+		result = libhmac_sha1_free(
+		          &( pyhmac_sha1_context->sha1_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA1 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha1_context );
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 3e09af9..09e7388 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	if( pyhmac_sha224_context->sha224_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA224 context - missing libhmac SHA224 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha224_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha224_free(
-	          &( pyhmac_sha224_context->sha224_context ),
-	          &error );
+		result = libhmac_sha224_free(
+		          &( pyhmac_sha224_context->sha224_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA224 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha224_context );
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 086513c..ce81954 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	if( pyhmac_sha256_context->sha256_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA256 context - missing libhmac SHA256 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha256_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha256_free(
-	          &( pyhmac_sha256_context->sha256_context ),
-	          &error );
+		result = libhmac_sha256_free(
+		          &( pyhmac_sha256_context->sha256_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA256 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha256_context );
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 97fd56a..e0a37be 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	if( pyhmac_sha512_context->sha512_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA512 context - missing libhmac SHA512 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha512_context );
 
@@ -284,24 +275,27 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	Py_BEGIN_ALLOW_THREADS
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		Py_BEGIN_ALLOW_THREADS
 
-	result = libhmac_sha512_free(
-	          &( pyhmac_sha512_context->sha512_context ),
-	          &error );
+		result = libhmac_sha512_free(
+		          &( pyhmac_sha512_context->sha512_context ),
+		          &error );
 
-	Py_END_ALLOW_THREADS
+		Py_END_ALLOW_THREADS
 
-	if( result != 1 )
-	{
-		pyhmac_error_raise(
-		 error,
-		 PyExc_MemoryError,
-		 "%s: unable to free libhmac SHA512 context.",
-		 function );
+		if( result != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
 
-		libcerror_error_free(
-		 &error );
+			libcerror_error_free(
+			 &error );
+		}
 	}
 	ob_type->tp_free(
 	 (PyObject*) pyhmac_sha512_context );
-- 
2.43.0


From f5ff61de2badb5d02807561976af73b2e7bab557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 18/24] fix: pyhmac: initialising a context object again
 releases its library context

---
 pyhmac/pyhmac_md5_context.c    | 20 +++++++++++++++++++-
 pyhmac/pyhmac_sha1_context.c   | 20 +++++++++++++++++++-
 pyhmac/pyhmac_sha224_context.c | 20 +++++++++++++++++++-
 pyhmac/pyhmac_sha256_context.c | 20 +++++++++++++++++++-
 pyhmac/pyhmac_sha512_context.c | 20 +++++++++++++++++++-
 5 files changed, 95 insertions(+), 5 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 026d042..56f1dd0 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_md5_context_new(
 
 		goto on_error;
 	}
+	pyhmac_md5_context->md5_context = NULL;
+
 	if( pyhmac_md5_context_init(
 	     pyhmac_md5_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
-	pyhmac_md5_context->md5_context = NULL;
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		if( libhmac_md5_free(
+		     &( pyhmac_md5_context->md5_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
 
+			return( -1 );
+		}
+	}
 	if( libhmac_md5_initialize(
 	     &( pyhmac_md5_context->md5_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index 55d07e9..d37cbd1 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha1_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha1_context->sha1_context = NULL;
+
 	if( pyhmac_sha1_context_init(
 	     pyhmac_sha1_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha1_context->sha1_context = NULL;
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		if( libhmac_sha1_free(
+		     &( pyhmac_sha1_context->sha1_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
 
+			return( -1 );
+		}
+	}
 	if( libhmac_sha1_initialize(
 	     &( pyhmac_sha1_context->sha1_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 09e7388..8f52f7a 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha224_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha224_context->sha224_context = NULL;
+
 	if( pyhmac_sha224_context_init(
 	     pyhmac_sha224_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha224_context->sha224_context = NULL;
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		if( libhmac_sha224_free(
+		     &( pyhmac_sha224_context->sha224_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
 
+			return( -1 );
+		}
+	}
 	if( libhmac_sha224_initialize(
 	     &( pyhmac_sha224_context->sha224_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index ce81954..8ba03fb 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha256_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha256_context->sha256_context = NULL;
+
 	if( pyhmac_sha256_context_init(
 	     pyhmac_sha256_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha256_context->sha256_context = NULL;
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		if( libhmac_sha256_free(
+		     &( pyhmac_sha256_context->sha256_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
 
+			return( -1 );
+		}
+	}
 	if( libhmac_sha256_initialize(
 	     &( pyhmac_sha256_context->sha256_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index e0a37be..00d96a3 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha512_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha512_context->sha512_context = NULL;
+
 	if( pyhmac_sha512_context_init(
 	     pyhmac_sha512_context ) != 0 )
 	{
@@ -215,8 +217,24 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha512_context->sha512_context = NULL;
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		if( libhmac_sha512_free(
+		     &( pyhmac_sha512_context->sha512_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
 
+			return( -1 );
+		}
+	}
 	if( libhmac_sha512_initialize(
 	     &( pyhmac_sha512_context->sha512_context ),
 	     &error ) != 1 )
-- 
2.43.0


From 24c74cc363c82d4c3cbf81fe8be7bbee8d8d0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 19/24] fix: pyhmac: module initialisation handles a failing
 registration and releases the module

---
 pyhmac/pyhmac.c | 74 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 20 deletions(-)

diff --git a/pyhmac/pyhmac.c b/pyhmac/pyhmac.c
index e421f0a..947d4cc 100644
--- a/pyhmac/pyhmac.c
+++ b/pyhmac/pyhmac.c
@@ -245,10 +245,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_md5_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "md5_context",
-	 (PyObject *) &pyhmac_md5_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "md5_context",
+	     (PyObject *) &pyhmac_md5_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_md5_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha1_context type object
 	 */
@@ -262,10 +268,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha1_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha1_context",
-	 (PyObject *) &pyhmac_sha1_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha1_context",
+	     (PyObject *) &pyhmac_sha1_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha1_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha224_context type object
 	 */
@@ -279,10 +291,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha224_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha224_context",
-	 (PyObject *) &pyhmac_sha224_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha224_context",
+	     (PyObject *) &pyhmac_sha224_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha224_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha256_context type object
 	 */
@@ -296,10 +314,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha256_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha256_context",
-	 (PyObject *) &pyhmac_sha256_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha256_context",
+	     (PyObject *) &pyhmac_sha256_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha256_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha512_context type object
 	 */
@@ -313,10 +337,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha512_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha512_context",
-	 (PyObject *) &pyhmac_sha512_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha512_context",
+	     (PyObject *) &pyhmac_sha512_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha512_context_type_object );
+
+		goto on_error;
+	}
 
 	PyGILState_Release(
 	 gil_state );
@@ -328,6 +358,10 @@ PyMODINIT_FUNC initpyhmac(
 #endif
 
 on_error:
+#if PY_MAJOR_VERSION >= 3
+	Py_DecRef(
+	 module );
+#endif
 	PyGILState_Release(
 	 gil_state );
 
-- 
2.43.0


From 103be45506423f0ccfe5ef44bedfd9666e318e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 20/24] fix: pyhmac: context objects keep the interpreter lock
 while their library context is used

Releasing it allowed another thread to update, finalize or reinitialize the
same context object at the same time, which gave wrong digests and use of
freed memory.
---
 pyhmac/pyhmac_md5_context.c    | 14 ++++++--------
 pyhmac/pyhmac_sha1_context.c   | 14 ++++++--------
 pyhmac/pyhmac_sha224_context.c | 14 ++++++--------
 pyhmac/pyhmac_sha256_context.c | 14 ++++++--------
 pyhmac/pyhmac_sha512_context.c | 14 ++++++--------
 5 files changed, 30 insertions(+), 40 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 56f1dd0..0725c1f 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -407,16 +407,15 @@ PyObject *pyhmac_md5_context_update(
 
 		return( NULL );
 	}
-	Py_BEGIN_ALLOW_THREADS
-
+	/* The interpreter lock is kept so that no other thread can use
+	 * or reinitialize the context object in the meantime
+	 */
 	result = libhmac_md5_update(
 	          pyhmac_md5_context->md5_context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
-	Py_END_ALLOW_THREADS
-
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -461,16 +460,15 @@ PyObject *pyhmac_md5_context_finalize(
 
 		return( NULL );
 	}
-	Py_BEGIN_ALLOW_THREADS
-
+	/* The interpreter lock is kept so that no other thread can use
+	 * or reinitialize the context object in the meantime
+	 */
 	result = libhmac_md5_finalize(
 	          pyhmac_md5_context->md5_context,
 	          md5_hash,
 	          LIBHMAC_MD5_HASH_SIZE,
 	          &error );
 
-	Py_END_ALLOW_THREADS
-
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index d37cbd1..3512309 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -407,16 +407,15 @@ PyObject *pyhmac_sha1_context_update(
 
 		return( NULL );
 	}
-	Py_BEGIN_ALLOW_THREADS
-
+	/* The interpreter lock is kept so that no other thread can use
+	 * or reinitialize the context object in the meantime
+	 */
 	result = libhmac_sha1_update(
 	          pyhmac_sha1_context->sha1_context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
-	Py_END_ALLOW_THREADS
-
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -461,16 +460,15 @@ PyObject *pyhmac_sha1_context_finalize(
 
 		return( NULL );
 	}
-	Py_BEGIN_ALLOW_THREADS
-
+	/* The interpreter lock is kept so that no other thread can use
+	 * or reinitialize the context object in the meantime
+	 */
 	result = libhmac_sha1_finalize(
 	          pyhmac_sha1_context->sha1_context,
 	          sha1_hash,
 	          LIBHMAC_SHA1_HASH_SIZE,
 	          &error );
 
-	Py_END_ALLOW_THREADS
-
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 8f52f7a..8be9f47 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -407,16 +407,15 @@ PyObject *pyhmac_sha224_context_update(
 
 		return( NULL );
 	}
-	Py_BEGIN_ALLOW_THREADS
-
+	/* The interpreter lock is kept so that no other thread can use
+	 * or reinitialize the context object in the meantime
+	 */
 	result = libhmac_sha224_update(
 	          pyhmac_sha224_context->sha224_context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
-	Py_END_ALLOW_THREADS
-
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -461,16 +460,15 @@ PyObject *pyhmac_sha224_context_finalize(
 
 		return( NULL );
 	}
-	Py_BEGIN_ALLOW_THREADS
-
+	/* The interpreter lock is kept so that no other thread can use
+	 * or reinitialize the context object in the meantime
+	 */
 	result = libhmac_sha224_finalize(
 	          pyhmac_sha224_context->sha224_context,
 	          sha224_hash,
 	          LIBHMAC_SHA224_HASH_SIZE,
 	          &error );
 
-	Py_END_ALLOW_THREADS
-
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 8ba03fb..b7290f5 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -407,16 +407,15 @@ PyObject *pyhmac_sha256_context_update(
 
 		return( NULL );
 	}
-	Py_BEGIN_ALLOW_THREADS
-
+	/* The interpreter lock is kept so that no other thread can use
+	 * or reinitialize the context object in the meantime
+	 */
 	result = libhmac_sha256_update(
 	          pyhmac_sha256_context->sha256_context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
-	Py_END_ALLOW_THREADS
-
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -461,16 +460,15 @@ PyObject *pyhmac_sha256_context_finalize(
 
 		return( NULL );
 	}
-	Py_BEGIN_ALLOW_THREADS
-
+	/* The interpreter lock is kept so that no other thread can use
+	 * or reinitialize the context object in the meantime
+	 */
 	result = libhmac_sha256_finalize(
 	          pyhmac_sha256_context->sha256_context,
 	          sha256_hash,
 	          LIBHMAC_SHA256_HASH_SIZE,
 	          &error );
 
-	Py_END_ALLOW_THREADS
-
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 00d96a3..ba4f674 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -407,16 +407,15 @@ PyObject *pyhmac_sha512_context_update(
 
 		return( NULL );
 	}
-	Py_BEGIN_ALLOW_THREADS
-
+	/* The interpreter lock is kept so that no other thread can use
+	 * or reinitialize the context object in the meantime
+	 */
 	result = libhmac_sha512_update(
 	          pyhmac_sha512_context->sha512_context,
 	          (uint8_t *) data,
 	          (size_t) data_size,
 	          &error );
 
-	Py_END_ALLOW_THREADS
-
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
@@ -461,16 +460,15 @@ PyObject *pyhmac_sha512_context_finalize(
 
 		return( NULL );
 	}
-	Py_BEGIN_ALLOW_THREADS
-
+	/* The interpreter lock is kept so that no other thread can use
+	 * or reinitialize the context object in the meantime
+	 */
 	result = libhmac_sha512_finalize(
 	          pyhmac_sha512_context->sha512_context,
 	          sha512_hash,
 	          LIBHMAC_SHA512_HASH_SIZE,
 	          &error );
 
-	Py_END_ALLOW_THREADS
-
 	if( result != 1 )
 	{
 		pyhmac_error_raise(
-- 
2.43.0


From a86d9fa0760ab9f5562db5227f17317b59728476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:45 +0000
Subject: [PATCH 21/24] fix: prevent the compiler from removing the clearing of
 memory

The memory is not used afterwards, hence gcc and clang remove the calls of
memset, with -O1 and up, that clear the working data of the digest and HMAC
calculations and the contexts before they are freed.
---
 common/memory.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/memory.h b/common/memory.h
index 2275bf2..0cb0761 100644
--- a/common/memory.h
+++ b/common/memory.h
@@ -117,8 +117,14 @@ extern "C" {
 /* Memory set
  */
 #if defined( HAVE_MEMSET ) || defined( WINAPI )
+
+/* Call memset by a volatile function pointer to prevent the compiler from removing
+ * the clearing of memory that is not used afterwards
+ */
+static void *(* const volatile memory_set_function)( void *, int, size_t ) = memset;
+
 #define memory_set( buffer, value, count ) \
-	memset( (void *) buffer, (int) value, count )
+	memory_set_function( (void *) buffer, (int) value, count )
 #endif
 
 #if defined( __cplusplus )
-- 
2.43.0


From dfbe3754e83d6ae1a5937c1ecd9a087d35deaf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:33 +0000
Subject: [PATCH 22/24] fix: hmactools_getopt does not read past an argument
 that is only the option marker

---
 hmactools/hmactools_getopt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 7f468ef..102eec6 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -93,6 +93,12 @@ system_integer_t hmactools_getopt(
 		}
 		argument_value++;
 
+		/* Check if the argument value consists of only the option marker
+		 */
+		if( *argument_value == (system_character_t) '\0' )
+		{
+			return( (system_integer_t) -1 );
+		}
 		/* Check if long options are provided '--'
 		 */
 		if( *argument_value == (system_character_t) '-' )
-- 
2.43.0


From ab66fb622f4a358f11e05c75a52a13c99dd57fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:33 +0000
Subject: [PATCH 23/24] fix: hmactools_getopt continues after an unknown option
 in a group

---
 hmactools/hmactools_getopt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 102eec6..580629c 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -129,6 +129,12 @@ system_integer_t hmactools_getopt(
 		{
 			optind++;
 		}
+		else
+		{
+			/* Continue with the next option in the group
+			 */
+			next_option = argument_value;
+		}
 		if( ( *options_string != (system_character_t) ':' )
 		 && ( optopt != (system_integer_t) '?' ) )
 		{
-- 
2.43.0


From 26fb5489755dae8dac9e918a73b07f6ff146a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:32 +0000
Subject: [PATCH 24/24] fix: the messages of pyhmac_*_calculate_hmac name the
 function that failed

---
 pyhmac/pyhmac_md5.c    | 2 +-
 pyhmac/pyhmac_sha1.c   | 2 +-
 pyhmac/pyhmac_sha224.c | 2 +-
 pyhmac/pyhmac_sha256.c | 2 +-
 pyhmac/pyhmac_sha512.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyhmac/pyhmac_md5.c b/pyhmac/pyhmac_md5.c
index ce300a9..d9239cc 100644
--- a/pyhmac/pyhmac_md5.c
+++ b/pyhmac/pyhmac_md5.c
@@ -174,7 +174,7 @@ PyObject *pyhmac_md5_calculate_hmac(
 	PyObject *string_object     = NULL;
 	libcerror_error_t *error    = NULL;
 	const char *data            = NULL;
-	static char *function       = "pyhmac_md5_calculate";
+	static char *function       = "pyhmac_md5_calculate_hmac";
 	char *key_data              = NULL;
 	static char *keyword_list[] = { "key", "data", NULL };
 	Py_ssize_t data_size        = 0;
diff --git a/pyhmac/pyhmac_sha1.c b/pyhmac/pyhmac_sha1.c
index 07555d4..6618534 100644
--- a/pyhmac/pyhmac_sha1.c
+++ b/pyhmac/pyhmac_sha1.c
@@ -174,7 +174,7 @@ PyObject *pyhmac_sha1_calculate_hmac(
 	PyObject *string_object     = NULL;
 	libcerror_error_t *error    = NULL;
 	const char *data            = NULL;
-	static char *function       = "pyhmac_sha1_calculate";
+	static char *function       = "pyhmac_sha1_calculate_hmac";
 	char *key_data              = NULL;
 	static char *keyword_list[] = { "key", "data", NULL };
 	Py_ssize_t data_size        = 0;
diff --git a/pyhmac/pyhmac_sha224.c b/pyhmac/pyhmac_sha224.c
index c88c381..e2dd516 100644
--- a/pyhmac/pyhmac_sha224.c
+++ b/pyhmac/pyhmac_sha224.c
@@ -174,7 +174,7 @@ PyObject *pyhmac_sha224_calculate_hmac(
 	PyObject *string_object     = NULL;
 	libcerror_error_t *error    = NULL;
 	const char *data            = NULL;
-	static char *function       = "pyhmac_sha224_calculate";
+	static char *function       = "pyhmac_sha224_calculate_hmac";
 	char *key_data              = NULL;
 	static char *keyword_list[] = { "key", "data", NULL };
 	Py_ssize_t data_size        = 0;
diff --git a/pyhmac/pyhmac_sha256.c b/pyhmac/pyhmac_sha256.c
index ebdbe91..71bb402 100644
--- a/pyhmac/pyhmac_sha256.c
+++ b/pyhmac/pyhmac_sha256.c
@@ -174,7 +174,7 @@ PyObject *pyhmac_sha256_calculate_hmac(
 	PyObject *string_object     = NULL;
 	libcerror_error_t *error    = NULL;
 	const char *data            = NULL;
-	static char *function       = "pyhmac_sha256_calculate";
+	static char *function       = "pyhmac_sha256_calculate_hmac";
 	char *key_data              = NULL;
 	static char *keyword_list[] = { "key", "data", NULL };
 	Py_ssize_t data_size        = 0;
diff --git a/pyhmac/pyhmac_sha512.c b/pyhmac/pyhmac_sha512.c
index e2024be..50069da 100644
--- a/pyhmac/pyhmac_sha512.c
+++ b/pyhmac/pyhmac_sha512.c
@@ -174,7 +174,7 @@ PyObject *pyhmac_sha512_calculate_hmac(
 	PyObject *string_object     = NULL;
 	libcerror_error_t *error    = NULL;
 	const char *data            = NULL;
-	static char *function       = "pyhmac_sha512_calculate";
+	static char *function       = "pyhmac_sha512_calculate_hmac";
 	char *key_data              = NULL;
 	static char *keyword_list[] = { "key", "data", NULL };
 	Py_ssize_t data_size        = 0;
-- 
2.43.0

