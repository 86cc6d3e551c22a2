PROPERTY = "C15"
EDITS = [("libhmac/libhmac_sha224.c", """		     key_hash,
		     LIBHMAC_SHA224_HASH_SIZE,
		     error ) != 1 )
""", """		     hmac,
		     hmac_size,
		     error ) != 1 )
"""), ("libhmac/libhmac_sha224.c", """		     key_data,
		     key_hash,
		     LIBHMAC_SHA224_HASH_SIZE ) == NULL )
""", """		     key_data,
		     hmac,
		     LIBHMAC_SHA224_HASH_SIZE ) == NULL )
""")]
NEEDS = "a key longer than a block, and a result written over the message"
BREAKS = "the digest of the key is made in the result buffer, before the message has been read"
SOURCES = ["libhmac/libhmac_sha224.c", "libhmac/libhmac_sha224_context.c"]
LOCAL = True
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include "libhmac_sha224.h"
int main( void )
{
	uint8_t key[ 131 ], m[ 64 ], h[ 28 ];
	memset( key, 0xaa, 131 );
	memset( m, 0x42, 64 );
	if( libhmac_sha224_calculate_hmac( key, 131, m, 64, h, 28, NULL ) != 1 ) return 2;
	if( libhmac_sha224_calculate_hmac( key, 131, m, 64, m, 28, NULL ) != 1 ) return 2;
	if( memcmp( m, h, 28 ) != 0 ) { printf( "the HMAC depends on where it is put\n" ); return 1; }
	return 0;
}
'''
