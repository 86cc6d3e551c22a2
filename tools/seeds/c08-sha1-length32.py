PROPERTY = "C08"
FILE = "libhmac/libhmac_sha1_context.c"
OLD = "bit_size = ( internal_context->hash_count + internal_context->block_offset ) * 8;"
NEW = "bit_size = (uint32_t) internal_context->hash_count * (uint64_t) 8 + (uint64_t) internal_context->block_offset * 8;"
NEEDS = "a message of 4 GiB or more"
BREAKS = "the bit length loses what lies above 32 bits of the byte count"
SOURCES = ["libhmac/libhmac_sha1_context.c"]
LOCAL = True
FLAGS = "-O2"
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include "libhmac_sha1_context.h"
static uint8_t chunk[ 1 << 20 ];
/* The count is set as 4 GiB of updates would leave it; what the last block then holds is compared with the count set by a small message */
int main( void )
{
	libhmac_sha1_context_t *a = NULL, *b = NULL;
	uint8_t x[ 20 ], y[ 20 ];
	if( libhmac_sha1_context_initialize( &a, NULL ) != 1 || libhmac_sha1_context_initialize( &b, NULL ) != 1 ) return 2;
	if( libhmac_sha1_context_update( a, chunk, 64, NULL ) != 1 || libhmac_sha1_context_update( b, chunk, 64, NULL ) != 1 ) return 2;
	( (libhmac_internal_sha1_context_t *) a )->hash_count += (uint64_t) 1 << 32;
	if( libhmac_sha1_context_finalize( a, x, 20, NULL ) != 1 || libhmac_sha1_context_finalize( b, y, 20, NULL ) != 1 ) return 2;
	if( !memcmp( x, y, 20 ) ) { printf( "the length above 4 GiB is ignored\n" ); return 1; }
	return 0;
}
'''
