PROPERTY = "C07"
FILE = "libhmac/libhmac_sha1.c"
OLD = """			if( memory_set(
			     &( key_data[ LIBHMAC_SHA1_HASH_SIZE ] ),
			     0,
			     block_size - LIBHMAC_SHA1_HASH_SIZE ) == NULL )
"""
NEW = """			if( memory_set(
			     &( key_data[ LIBHMAC_SHA1_HASH_SIZE ] ),
			     0,
			     block_size - sizeof( key_hash ) - sizeof( error ) ) == NULL )
"""
NEEDS = "a key longer than a block, and heap memory that is not zero"
BREAKS = "the last bytes of the padded key stay uninitialized when the key is longer than a block"
SOURCES = ["libhmac/libhmac_sha1.c", "libhmac/libhmac_sha1_context.c"]
LOCAL = True
FLAGS = "-Dmalloc=d_malloc"
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#undef malloc
#include <stdlib.h>
#include "libhmac_sha1.h"
void *calloc( size_t, size_t );
void *d_malloc( size_t n ) { void *p = calloc( 1, n ); if( p ) memset( p, 0xaa, n ); return p; }
int main( void )
{
	/* RFC 2202, test case 6 */
	static const uint8_t want[ 20 ] = { 0xaa, 0x4a, 0xe5, 0xe1, 0x52, 0x72, 0xd0, 0x0e, 0x95, 0x70, 0x56, 0x37, 0xce, 0x8a, 0x3b, 0x55, 0xed, 0x40, 0x21, 0x12 };
	static const char *text = "Test Using Larger Than Block-Size Key - Hash Key First";
	uint8_t key[ 80 ], h[ 20 ];
	memset( key, 0xaa, 80 );
	if( libhmac_sha1_calculate_hmac( key, 80, (const uint8_t *) text, strlen( text ), h, 20, NULL ) != 1 ) return 2;
	if( memcmp( h, want, 20 ) != 0 ) { printf( "wrong HMAC\n" ); return 1; }
	return 0;
}
'''
