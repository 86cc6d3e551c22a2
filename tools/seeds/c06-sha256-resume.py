PROPERTY = "C06"
FILE = "libhmac/libhmac_sha256_context.c"
OLD = """		if( internal_context->block_offset < LIBHMAC_SHA256_BLOCK_SIZE )
		{
			return( 1 );
		}
		buffer_offset += remaining_block_size;
		size          -= remaining_block_size;
"""
NEW = """		if( ( internal_context->block_offset < LIBHMAC_SHA256_BLOCK_SIZE )
		 || ( remaining_block_size == size ) )
		{
			return( 1 );
		}
		buffer_offset += remaining_block_size;
		size          -= remaining_block_size;
"""
NEEDS = "an update that exactly completes a partly filled block, followed by another update"
BREAKS = "an update that exactly fills the pending block leaves it pending: the next update is refused"
SOURCES = ["libhmac/libhmac_sha256_context.c"]
LOCAL = True
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include "libhmac_sha256_context.h"
int main( void )
{
	libhmac_sha256_context_t *c = NULL, *d = NULL;
	uint8_t m[ 200 ], a[ 32 ], b[ 32 ];
	unsigned i;
	for( i = 0; i < 200; i++ ) m[ i ] = (uint8_t) ( 7 * i + 1 );
	if( libhmac_sha256_context_initialize( &c, NULL ) != 1 || libhmac_sha256_context_initialize( &d, NULL ) != 1 ) return 2;
	if( libhmac_sha256_context_update( c, m, 200, NULL ) != 1 ) return 2;
	if( libhmac_sha256_context_update( d, m, 40, NULL ) != 1 ) return 2;
	if( libhmac_sha256_context_update( d, m + 40, 24, NULL ) != 1 ) return 2;
	if( libhmac_sha256_context_update( d, m + 64, 136, NULL ) != 1 ) { printf( "a valid update is refused\n" ); return 1; }
	if( libhmac_sha256_context_finalize( c, a, 32, NULL ) != 1 || libhmac_sha256_context_finalize( d, b, 32, NULL ) != 1 ) return 2;
	if( memcmp( a, b, 32 ) != 0 ) { printf( "the digest depends on the split\n" ); return 1; }
	return 0;
}
'''
