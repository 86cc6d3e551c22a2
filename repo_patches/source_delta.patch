From 4979fdc924efee7647ba869ca2522adfdb16a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:39 +0000
Subject: [PATCH 01/19] fix: byte_stream_copy_to_uint48_little_endian kept the
 previous bits of the value

The first byte was or-ed into the value instead of assigned, so the result
depended on the previous content of the destination.
---
 common/byte_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/byte_stream.h b/common/byte_stream.h
index 41db315..593072f 100644
--- a/common/byte_stream.h
+++ b/common/byte_stream.h
@@ -107,7 +107,7 @@ typedef union byte_stream_float64
 	( value )  |= ( byte_stream )[ 5 ];
 
 #define byte_stream_copy_to_uint48_little_endian( byte_stream, value ) \
-	( value )  |= ( byte_stream )[ 5 ]; \
+	( value )   = ( byte_stream )[ 5 ]; \
 	( value ) <<= 8; \
 	( value )  |= ( byte_stream )[ 4 ]; \
 	( value ) <<= 8; \
-- 
2.43.0


From a1294c6adbbe3305de6358ab4a9920e98d073cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:55 +0000
Subject: [PATCH 02/19] fix:
 libhmac_byte_stream_copy_to_1x_uint64_little_endian lost the upper bytes

The fourth byte was assigned instead of or-ed, which discarded the four bytes
read before it.
---
 libhmac/libhmac_byte_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhmac/libhmac_byte_stream.h b/libhmac/libhmac_byte_stream.h
index 8cfea95..a5c6f25 100644
--- a/libhmac/libhmac_byte_stream.h
+++ b/libhmac/libhmac_byte_stream.h
@@ -109,7 +109,7 @@ extern "C" {
 	values[ values_index ] <<= 8; \
 	values[ values_index ]  |= ( byte_stream )[ ( values_index << 3 ) + 4 ]; \
 	values[ values_index ] <<= 8; \
-	values[ values_index ]   = ( byte_stream )[ ( values_index << 3 ) + 3 ]; \
+	values[ values_index ]  |= ( byte_stream )[ ( values_index << 3 ) + 3 ]; \
 	values[ values_index ] <<= 8; \
 	values[ values_index ]  |= ( byte_stream )[ ( values_index << 3 ) + 2 ]; \
 	values[ values_index ] <<= 8; \
-- 
2.43.0


From 152107380e53ab82a5e253c0ac987db282e97a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 03/19] fix: byte_size_string_convert refused sizes in units of
 K

The factor character was only skipped for factors above 1, so that 4K, 4KB and
4KiB were reported as having invalid units.
---
 hmactools/byte_size_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index 361e039..bd1767b 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -347,7 +347,7 @@ int byte_size_string_convert(
 
 		return( -1 );
 	}
-	else if( factor > 1 )
+	else if( factor > 0 )
 	{
 		byte_size_string_iterator++;
 	}
-- 
2.43.0


From d41aadbe33f2cc1cbc80a05b41777f3a1a6c8f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 04/19] fix: byte_size_string_convert took binary fractions as
 decimal

The fraction was multiplied by 10 as if the next smaller unit is always a
1000th, hence 1.5 MiB was converted into 1524 KiB instead of 1536 KiB.
---
 hmactools/byte_size_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index bd1767b..30b74fd 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -387,7 +387,7 @@ int byte_size_string_convert(
 
 			factor--;
 
-			byte_size += ( remainder * 10 );
+			byte_size += ( remainder * units ) / 100;
 		}
 		for( ; factor > 0; factor-- )
 		{
-- 
2.43.0


From 064a29a45dff7f4263d3e38d9a6b1980e7b1c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 05/19] fix: byte_size_string_create printed wrong fractions of
 binary units

The fraction digit was determined as if the next smaller unit is always a
1000th, hence 1834 bytes were printed as 1.8 KiB instead of 1.7 KiB.
---
 hmactools/byte_size_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index 30b74fd..5250a70 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -97,7 +97,7 @@ int byte_size_string_create(
 		if( factored_size < 10 )
 		{
 			last_factored_size %= units;
-			remainder           = (int8_t) ( last_factored_size / 100 );
+			remainder           = (int8_t) ( ( last_factored_size * 10 ) / units );
 		}
 	}
 	if( factor > 8 )
-- 
2.43.0


From 765a04e33f44697e7cb9d37958bc61f6186e1f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:55 +0000
Subject: [PATCH 06/19] fix: byte_size_string_convert silently wrapped sizes
 that do not fit in 64 bits

A number or a multiple of a unit above the maximum was reduced modulo 2^64,
e.g. 18446744073709551617 was converted into 1, instead of being refused.
---
 hmactools/byte_size_string.c | 43 ++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/hmactools/byte_size_string.c b/hmactools/byte_size_string.c
index 5250a70..9688ea9 100644
--- a/hmactools/byte_size_string.c
+++ b/hmactools/byte_size_string.c
@@ -213,6 +213,8 @@ int byte_size_string_convert(
 	static char *function            = "byte_size_string_convert";
 	size_t byte_size_string_iterator = 0;
 	uint64_t byte_size               = 0;
+	uint64_t remainder_size          = 0;
+	uint8_t byte_size_digit          = 0;
 	int8_t factor                    = 0;
 	int8_t remainder                 = -1;
 	int decimal_point                = 0;
@@ -260,8 +262,21 @@ int byte_size_string_convert(
 		{
 			break;
 		}
+		byte_size_digit = (uint8_t) ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+
+		if( byte_size > ( ( (uint64_t) UINT64_MAX - byte_size_digit ) / 10 ) )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+			 LIBCERROR_RUNTIME_ERROR_VALUE_EXCEEDS_MAXIMUM,
+			 "%s: invalid byte size value exceeds maximum.",
+			 function );
+
+			return( -1 );
+		}
 		byte_size *= 10;
-		byte_size += ( byte_size_string[ byte_size_string_iterator ] - (system_character_t) '0' );
+		byte_size += byte_size_digit;
 
 		byte_size_string_iterator++;
 	}
@@ -383,14 +398,38 @@ int byte_size_string_convert(
 	{
 		if( remainder > 0 )
 		{
+			remainder_size = ( (uint64_t) remainder * units ) / 100;
+
+			if( byte_size > ( ( (uint64_t) UINT64_MAX - remainder_size ) / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_EXCEEDS_MAXIMUM,
+				 "%s: invalid byte size value exceeds maximum.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
 
 			factor--;
 
-			byte_size += ( remainder * units ) / 100;
+			byte_size += remainder_size;
 		}
 		for( ; factor > 0; factor-- )
 		{
+			if( byte_size > ( (uint64_t) UINT64_MAX / units ) )
+			{
+				libcerror_error_set(
+				 error,
+				 LIBCERROR_ERROR_DOMAIN_RUNTIME,
+				 LIBCERROR_RUNTIME_ERROR_VALUE_EXCEEDS_MAXIMUM,
+				 "%s: invalid byte size value exceeds maximum.",
+				 function );
+
+				return( -1 );
+			}
 			byte_size *= units;
 		}
 	}
-- 
2.43.0


From 3d5bf7bdebd99affdb4e86cd60884838d83cc0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:56 +0000
Subject: [PATCH 07/19] fix: hmactools_getopt read beyond the end of a single -
 argument

A - on its own is an operand, the end of string character was treated as
an (unknown) option and the characters after it were read.
---
 hmactools/hmactools_getopt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index 7f468ef..b4d0144 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -93,6 +93,12 @@ system_integer_t hmactools_getopt(
 		}
 		argument_value++;
 
+		/* Check if the argument value is a single '-', which is not an option
+		 */
+		if( *argument_value == (system_character_t) '\0' )
+		{
+			return( (system_integer_t) -1 );
+		}
 		/* Check if long options are provided '--'
 		 */
 		if( *argument_value == (system_character_t) '-' )
-- 
2.43.0


From 6424374bd1107d0e1c80aa0c1d5ca3228f38157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:56 +0000
Subject: [PATCH 08/19] fix: hmactools_getopt returned an unknown option in a
 group over and over

Neither the option index nor the next option was changed, hence a caller that
continues after ? never reached the end of the arguments.
---
 hmactools/hmactools_getopt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hmactools/hmactools_getopt.c b/hmactools/hmactools_getopt.c
index b4d0144..4102485 100644
--- a/hmactools/hmactools_getopt.c
+++ b/hmactools/hmactools_getopt.c
@@ -129,6 +129,12 @@ system_integer_t hmactools_getopt(
 		{
 			optind++;
 		}
+		else
+		{
+			/* Continue with the next option in the group
+			 */
+			next_option = argument_value;
+		}
 		if( ( *options_string != (system_character_t) ':' )
 		 && ( optopt != (system_integer_t) '?' ) )
 		{
-- 
2.43.0


From 67c10d88ef1be8493bde67513363525224a70ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 09/19] fix: sum_handle_set_digest_types returned 0 instead of
 1 if successful

---
 hmactools/sum_handle.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 82aa742..188cbbe 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1167,7 +1167,6 @@ int sum_handle_set_digest_types(
 	uint8_t calculate_sha512               = 0;
 	int number_of_segments                 = 0;
 	int segment_index                      = 0;
-	int result                             = 0;
 
 	if( sum_handle == NULL )
 	{
@@ -1552,7 +1551,7 @@ int sum_handle_set_digest_types(
 
 		goto on_error;
 	}
-	return( result );
+	return( 1 );
 
 on_error:
 	if( string_elements != NULL )
-- 
2.43.0


From 5edfb789d8769cddf4a20befef6a7109da08522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 10/19] fix: sum_handle_set_digest_types leaked the split
 string on error

---
 hmactools/sum_handle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 188cbbe..9709dfb 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1210,7 +1210,7 @@ int sum_handle_set_digest_types(
 		 "%s: unable to retrieve number of segments.",
 		 function );
 
-		return( -1 );
+		goto on_error;
 	}
 	for( segment_index = 0;
 	     segment_index < number_of_segments;
@@ -1243,7 +1243,7 @@ int sum_handle_set_digest_types(
 			 function,
 			 segment_index );
 
-			return( -1 );
+			goto on_error;
 		}
 		if( string_segment_size == 4 )
 		{
-- 
2.43.0


From 9efac7f1b70e4e1432b489b98a947f0c6e13cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 11/19] fix: sum_handle_initialize leaked the input handle on
 error

---
 hmactools/sum_handle.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index 9709dfb..adaf839 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -100,7 +100,12 @@ int sum_handle_initialize(
 		 "%s: unable to clear sum handle.",
 		 function );
 
-		goto on_error;
+		memory_free(
+		 *sum_handle );
+
+		*sum_handle = NULL;
+
+		return( -1 );
 	}
 	if( libcfile_file_initialize(
 	     &( ( *sum_handle )->input_handle ),
@@ -137,6 +142,12 @@ int sum_handle_initialize(
 on_error:
 	if( *sum_handle != NULL )
 	{
+		if( ( *sum_handle )->input_handle != NULL )
+		{
+			libcfile_file_free(
+			 &( ( *sum_handle )->input_handle ),
+			 NULL );
+		}
 		memory_free(
 		 *sum_handle );
 
-- 
2.43.0


From c70a92d9c445764e7eef3a818a927d129f9adc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 12/19] fix: sum_handle_hash_values_fprint ignored that a hash
 value could not be printed

---
 hmactools/sum_handle.c | 90 ++++++++++++++++++++++++++++++++----------
 1 file changed, 70 insertions(+), 20 deletions(-)

diff --git a/hmactools/sum_handle.c b/hmactools/sum_handle.c
index adaf839..b6c46dc 100644
--- a/hmactools/sum_handle.c
+++ b/hmactools/sum_handle.c
@@ -1666,38 +1666,88 @@ int sum_handle_hash_values_fprint(
 	}
 	if( sum_handle->calculate_md5 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "MD5 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_md5_hash_string );
+		if( fprintf(
+		     stream,
+		     "MD5 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_md5_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print MD5 hash value.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha1 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA1 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha1_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA1 hash calculated over data:\t\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha1_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA1 hash value.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha224 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA224 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha224_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA224 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha224_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA224 hash value.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha256 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA256 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha256_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA256 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha256_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA256 hash value.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	if( sum_handle->calculate_sha512 != 0 )
 	{
-		fprintf(
-		 stream,
-		 "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
-		 sum_handle->calculated_sha512_hash_string );
+		if( fprintf(
+		     stream,
+		     "SHA512 hash calculated over data:\t%" PRIs_SYSTEM "\n",
+		     sum_handle->calculated_sha512_hash_string ) < 0 )
+		{
+			libcerror_error_set(
+			 error,
+			 LIBCERROR_ERROR_DOMAIN_IO,
+			 LIBCERROR_IO_ERROR_WRITE_FAILED,
+			 "%s: unable to print SHA512 hash value.",
+			 function );
+
+			return( -1 );
+		}
 	}
 	return( 1 );
 }
-- 
2.43.0


From d7d97c7f7142c4be01379a55769fdb6ddd3ef196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 13/19] fix: hmacsum freed the sum handle while the signal
 handler could still access it

---
 hmactools/hmacsum.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hmactools/hmacsum.c b/hmactools/hmacsum.c
index 5bc0e83..e8a4142 100644
--- a/hmactools/hmacsum.c
+++ b/hmactools/hmacsum.c
@@ -131,6 +131,7 @@ int main( int argc, char * const argv[] )
 #endif
 {
 	libcerror_error_t *error                       = NULL;
+	sum_handle_t *sum_handle                       = NULL;
 	system_character_t *option_digest_types        = NULL;
 	system_character_t *option_process_buffer_size = NULL;
 	system_character_t *program                    = _SYSTEM_STRING( "hmacsum" );
@@ -363,8 +364,13 @@ on_abort:
 		libcerror_error_free(
 		 &error );
 	}
+	/* Make sure the signal handler cannot access the sum handle while it is freed
+	 */
+	sum_handle         = hmacsum_sum_handle;
+	hmacsum_sum_handle = NULL;
+
 	if( sum_handle_free(
-	     &hmacsum_sum_handle,
+	     &sum_handle,
 	     &error ) != 1 )
 	{
 		fprintf(
@@ -394,8 +400,13 @@ on_error:
 	}
 	if( hmacsum_sum_handle != NULL )
 	{
+		/* Make sure the signal handler cannot access the sum handle while it is freed
+		 */
+		sum_handle         = hmacsum_sum_handle;
+		hmacsum_sum_handle = NULL;
+
 		sum_handle_free(
-		 &hmacsum_sum_handle,
+		 &sum_handle,
 		 NULL );
 	}
 	return( EXIT_FAILURE );
-- 
2.43.0


From a5c70145ef8287e82f949093e0a2c3f3b78b909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:12 +0000
Subject: [PATCH 14/19] fix: hmacsum leaked the error of an operation that was
 aborted

---
 hmactools/hmacsum.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hmactools/hmacsum.c b/hmactools/hmacsum.c
index e8a4142..850c6b6 100644
--- a/hmactools/hmacsum.c
+++ b/hmactools/hmacsum.c
@@ -386,6 +386,9 @@ on_abort:
 		 "%" PRIs_SYSTEM ": ABORTED\n",
 		 program );
 
+		libcerror_error_free(
+		 &error );
+
 		return( EXIT_FAILURE );
 	}
 	return( EXIT_SUCCESS );
-- 
2.43.0


From ffdc5d1403ccf1a38e8287639eed2144b2374286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:17 +0000
Subject: [PATCH 15/19] fix: do not leak a reference to None in the Python
 digest functions

---
 pyhmac/pyhmac_md5.c    | 6 ------
 pyhmac/pyhmac_sha1.c   | 6 ------
 pyhmac/pyhmac_sha224.c | 6 ------
 pyhmac/pyhmac_sha256.c | 6 ------
 pyhmac/pyhmac_sha512.c | 6 ------
 5 files changed, 30 deletions(-)

diff --git a/pyhmac/pyhmac_md5.c b/pyhmac/pyhmac_md5.c
index ce8d0ca..ce300a9 100644
--- a/pyhmac/pyhmac_md5.c
+++ b/pyhmac/pyhmac_md5.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_md5_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) md5_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_md5_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) md5_hmac,
diff --git a/pyhmac/pyhmac_sha1.c b/pyhmac/pyhmac_sha1.c
index ba455f1..07555d4 100644
--- a/pyhmac/pyhmac_sha1.c
+++ b/pyhmac/pyhmac_sha1.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha1_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha1_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha1_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha1_hmac,
diff --git a/pyhmac/pyhmac_sha224.c b/pyhmac/pyhmac_sha224.c
index e563d21..c88c381 100644
--- a/pyhmac/pyhmac_sha224.c
+++ b/pyhmac/pyhmac_sha224.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha224_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha224_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha224_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha224_hmac,
diff --git a/pyhmac/pyhmac_sha256.c b/pyhmac/pyhmac_sha256.c
index 2fdf9cd..ebdbe91 100644
--- a/pyhmac/pyhmac_sha256.c
+++ b/pyhmac/pyhmac_sha256.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha256_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha256_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha256_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha256_hmac,
diff --git a/pyhmac/pyhmac_sha512.c b/pyhmac/pyhmac_sha512.c
index 932f15c..e2024be 100644
--- a/pyhmac/pyhmac_sha512.c
+++ b/pyhmac/pyhmac_sha512.c
@@ -139,9 +139,6 @@ PyObject *pyhmac_sha512_calculate(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha512_hash,
@@ -299,9 +296,6 @@ PyObject *pyhmac_sha512_calculate_hmac(
 
 		return( NULL );
 	}
-	Py_IncRef(
-	 Py_None );
-
 #if PY_MAJOR_VERSION >= 3
 	bytes_object = PyBytes_FromStringAndSize(
 	                (char *) sha512_hmac,
-- 
2.43.0


From 87be6a8dbe92c4634bad6b3e4f89d97c4d1e3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:17 +0000
Subject: [PATCH 16/19] fix: release the memory of Python context objects that
 were never initialized

---
 pyhmac/pyhmac_md5_context.c    | 9 ---------
 pyhmac/pyhmac_sha1_context.c   | 9 ---------
 pyhmac/pyhmac_sha224_context.c | 9 ---------
 pyhmac/pyhmac_sha256_context.c | 9 ---------
 pyhmac/pyhmac_sha512_context.c | 9 ---------
 5 files changed, 45 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 3ef4642..50018d0 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -254,15 +254,6 @@ void pyhmac_md5_context_free(
 
 		return;
 	}
-	if( pyhmac_md5_context->md5_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid MD5 context - missing libhmac MD5 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_md5_context );
 
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index eca70b6..68cffb7 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha1_context_free(
 
 		return;
 	}
-	if( pyhmac_sha1_context->sha1_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA1 context - missing libhmac SHA1 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha1_context );
 
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 3e09af9..61157e5 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha224_context_free(
 
 		return;
 	}
-	if( pyhmac_sha224_context->sha224_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA224 context - missing libhmac SHA224 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha224_context );
 
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 086513c..046db5d 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha256_context_free(
 
 		return;
 	}
-	if( pyhmac_sha256_context->sha256_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA256 context - missing libhmac SHA256 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha256_context );
 
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 97fd56a..0baae33 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -254,15 +254,6 @@ void pyhmac_sha512_context_free(
 
 		return;
 	}
-	if( pyhmac_sha512_context->sha512_context == NULL )
-	{
-		PyErr_Format(
-		 PyExc_ValueError,
-		 "%s: invalid SHA512 context - missing libhmac SHA512 context.",
-		 function );
-
-		return;
-	}
 	ob_type = Py_TYPE(
 	           pyhmac_sha512_context );
 
-- 
2.43.0


From 176bada206cc9afdd9fdd7af00b14531fe932519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:17 +0000
Subject: [PATCH 17/19] fix: release the previous context when a Python context
 object is initialized again

---
 pyhmac/pyhmac_md5_context.c    | 24 ++++++++++++++++++++++--
 pyhmac/pyhmac_sha1_context.c   | 24 ++++++++++++++++++++++--
 pyhmac/pyhmac_sha224_context.c | 24 ++++++++++++++++++++++--
 pyhmac/pyhmac_sha256_context.c | 24 ++++++++++++++++++++++--
 pyhmac/pyhmac_sha512_context.c | 24 ++++++++++++++++++++++--
 5 files changed, 110 insertions(+), 10 deletions(-)

diff --git a/pyhmac/pyhmac_md5_context.c b/pyhmac/pyhmac_md5_context.c
index 50018d0..240f052 100644
--- a/pyhmac/pyhmac_md5_context.c
+++ b/pyhmac/pyhmac_md5_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_md5_context_new(
 
 		goto on_error;
 	}
+	pyhmac_md5_context->md5_context = NULL;
+
 	if( pyhmac_md5_context_init(
 	     pyhmac_md5_context ) != 0 )
 	{
@@ -215,8 +217,26 @@ int pyhmac_md5_context_init(
 
 		return( -1 );
 	}
-	pyhmac_md5_context->md5_context = NULL;
-
+	/* The object can be initialized more than once
+	 */
+	if( pyhmac_md5_context->md5_context != NULL )
+	{
+		if( libhmac_md5_free(
+		     &( pyhmac_md5_context->md5_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac MD5 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_md5_initialize(
 	     &( pyhmac_md5_context->md5_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha1_context.c b/pyhmac/pyhmac_sha1_context.c
index 68cffb7..e36ec7a 100644
--- a/pyhmac/pyhmac_sha1_context.c
+++ b/pyhmac/pyhmac_sha1_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha1_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha1_context->sha1_context = NULL;
+
 	if( pyhmac_sha1_context_init(
 	     pyhmac_sha1_context ) != 0 )
 	{
@@ -215,8 +217,26 @@ int pyhmac_sha1_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha1_context->sha1_context = NULL;
-
+	/* The object can be initialized more than once
+	 */
+	if( pyhmac_sha1_context->sha1_context != NULL )
+	{
+		if( libhmac_sha1_free(
+		     &( pyhmac_sha1_context->sha1_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA1 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha1_initialize(
 	     &( pyhmac_sha1_context->sha1_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha224_context.c b/pyhmac/pyhmac_sha224_context.c
index 61157e5..cbb4835 100644
--- a/pyhmac/pyhmac_sha224_context.c
+++ b/pyhmac/pyhmac_sha224_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha224_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha224_context->sha224_context = NULL;
+
 	if( pyhmac_sha224_context_init(
 	     pyhmac_sha224_context ) != 0 )
 	{
@@ -215,8 +217,26 @@ int pyhmac_sha224_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha224_context->sha224_context = NULL;
-
+	/* The object can be initialized more than once
+	 */
+	if( pyhmac_sha224_context->sha224_context != NULL )
+	{
+		if( libhmac_sha224_free(
+		     &( pyhmac_sha224_context->sha224_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA224 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha224_initialize(
 	     &( pyhmac_sha224_context->sha224_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha256_context.c b/pyhmac/pyhmac_sha256_context.c
index 046db5d..1af44c2 100644
--- a/pyhmac/pyhmac_sha256_context.c
+++ b/pyhmac/pyhmac_sha256_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha256_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha256_context->sha256_context = NULL;
+
 	if( pyhmac_sha256_context_init(
 	     pyhmac_sha256_context ) != 0 )
 	{
@@ -215,8 +217,26 @@ int pyhmac_sha256_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha256_context->sha256_context = NULL;
-
+	/* The object can be initialized more than once
+	 */
+	if( pyhmac_sha256_context->sha256_context != NULL )
+	{
+		if( libhmac_sha256_free(
+		     &( pyhmac_sha256_context->sha256_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA256 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha256_initialize(
 	     &( pyhmac_sha256_context->sha256_context ),
 	     &error ) != 1 )
diff --git a/pyhmac/pyhmac_sha512_context.c b/pyhmac/pyhmac_sha512_context.c
index 0baae33..0da1f3a 100644
--- a/pyhmac/pyhmac_sha512_context.c
+++ b/pyhmac/pyhmac_sha512_context.c
@@ -176,6 +176,8 @@ PyObject *pyhmac_sha512_context_new(
 
 		goto on_error;
 	}
+	pyhmac_sha512_context->sha512_context = NULL;
+
 	if( pyhmac_sha512_context_init(
 	     pyhmac_sha512_context ) != 0 )
 	{
@@ -215,8 +217,26 @@ int pyhmac_sha512_context_init(
 
 		return( -1 );
 	}
-	pyhmac_sha512_context->sha512_context = NULL;
-
+	/* The object can be initialized more than once
+	 */
+	if( pyhmac_sha512_context->sha512_context != NULL )
+	{
+		if( libhmac_sha512_free(
+		     &( pyhmac_sha512_context->sha512_context ),
+		     &error ) != 1 )
+		{
+			pyhmac_error_raise(
+			 error,
+			 PyExc_MemoryError,
+			 "%s: unable to free libhmac SHA512 context.",
+			 function );
+
+			libcerror_error_free(
+			 &error );
+
+			return( -1 );
+		}
+	}
 	if( libhmac_sha512_initialize(
 	     &( pyhmac_sha512_context->sha512_context ),
 	     &error ) != 1 )
-- 
2.43.0


From 56c6afd2961644081f969a4265566a685135dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:17 +0000
Subject: [PATCH 18/19] fix: release the fetched Python exception and cope with
 one that cannot be printed

---
 pyhmac/pyhmac_error.c | 65 +++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/pyhmac/pyhmac_error.c b/pyhmac/pyhmac_error.c
index 73d0caf..0a1568c 100644
--- a/pyhmac/pyhmac_error.c
+++ b/pyhmac/pyhmac_error.c
@@ -129,19 +129,22 @@ void VARARGS(
 	string_object = PyObject_Repr(
 	                 exception_value );
 
+	if( string_object != NULL )
+	{
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
 
-	if( utf8_string_object != NULL )
-	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
-	}
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
 	if( exception_string != NULL )
 	{
 		libcerror_error_set(
@@ -168,8 +171,18 @@ void VARARGS(
 		 utf8_string_object );
 	}
 #endif
+	/* A failure to determine the exception string is ignored
+	 */
+	PyErr_Clear();
+
 	Py_DecRef(
 	 string_object );
+	Py_DecRef(
+	 exception_traceback );
+	Py_DecRef(
+	 exception_value );
+	Py_DecRef(
+	 exception_type );
 
 	return;
 }
@@ -269,19 +282,22 @@ void VARARGS(
 	string_object = PyObject_Repr(
 	                 exception_value );
 
+	if( string_object != NULL )
+	{
 #if PY_MAJOR_VERSION >= 3
-	utf8_string_object = PyUnicode_AsUTF8String(
-	                      string_object );
+		utf8_string_object = PyUnicode_AsUTF8String(
+		                      string_object );
 
-	if( utf8_string_object != NULL )
-	{
-		exception_string = PyBytes_AsString(
-		                    utf8_string_object );
-	}
+		if( utf8_string_object != NULL )
+		{
+			exception_string = PyBytes_AsString(
+			                    utf8_string_object );
+		}
 #else
-	exception_string = PyString_AsString(
-	                    string_object );
+		exception_string = PyString_AsString(
+		                    string_object );
 #endif
+	}
 	if( exception_string != NULL )
 	{
 		PyErr_Format(
@@ -297,8 +313,21 @@ void VARARGS(
 		 "%s.",
 		 error_string );
 	}
+#if PY_MAJOR_VERSION >= 3
+	if( utf8_string_object != NULL )
+	{
+		Py_DecRef(
+		 utf8_string_object );
+	}
+#endif
 	Py_DecRef(
 	 string_object );
+	Py_DecRef(
+	 exception_traceback );
+	Py_DecRef(
+	 exception_value );
+	Py_DecRef(
+	 exception_type );
 
 	return;
 }
-- 
2.43.0


From 9c84f9e25ae02349028ed7c400b4cae35034a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:39 +0000
Subject: [PATCH 19/19] fix: report and clean up a failure to set up the Python
 module

---
 pyhmac/pyhmac.c | 75 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/pyhmac/pyhmac.c b/pyhmac/pyhmac.c
index e421f0a..4d289cb 100644
--- a/pyhmac/pyhmac.c
+++ b/pyhmac/pyhmac.c
@@ -245,10 +245,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_md5_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "md5_context",
-	 (PyObject *) &pyhmac_md5_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "md5_context",
+	     (PyObject *) &pyhmac_md5_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_md5_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha1_context type object
 	 */
@@ -262,10 +268,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha1_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha1_context",
-	 (PyObject *) &pyhmac_sha1_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha1_context",
+	     (PyObject *) &pyhmac_sha1_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha1_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha224_context type object
 	 */
@@ -279,10 +291,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha224_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha224_context",
-	 (PyObject *) &pyhmac_sha224_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha224_context",
+	     (PyObject *) &pyhmac_sha224_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha224_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha256_context type object
 	 */
@@ -296,10 +314,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha256_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha256_context",
-	 (PyObject *) &pyhmac_sha256_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha256_context",
+	     (PyObject *) &pyhmac_sha256_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha256_context_type_object );
+
+		goto on_error;
+	}
 
 	/* Setup the sha512_context type object
 	 */
@@ -313,10 +337,16 @@ PyMODINIT_FUNC initpyhmac(
 	Py_IncRef(
 	 (PyObject *) &pyhmac_sha512_context_type_object );
 
-	PyModule_AddObject(
-	 module,
-	 "sha512_context",
-	 (PyObject *) &pyhmac_sha512_context_type_object );
+	if( PyModule_AddObject(
+	     module,
+	     "sha512_context",
+	     (PyObject *) &pyhmac_sha512_context_type_object ) != 0 )
+	{
+		Py_DecRef(
+		 (PyObject *) &pyhmac_sha512_context_type_object );
+
+		goto on_error;
+	}
 
 	PyGILState_Release(
 	 gil_state );
@@ -328,6 +358,11 @@ PyMODINIT_FUNC initpyhmac(
 #endif
 
 on_error:
+#if PY_MAJOR_VERSION >= 3
+	Py_DecRef(
+	 module );
+
+#endif
 	PyGILState_Release(
 	 gil_state );
 
-- 
2.43.0

