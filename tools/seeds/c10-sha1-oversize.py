PROPERTY = "C10"
FILE = "libhmac/libhmac_sha1_context.c"
EDITS = None
OLD = """	if( size > (size_t) SSIZE_MAX )
	{
		libcerror_error_set(
		 error,
		 LIBCERROR_ERROR_DOMAIN_ARGUMENTS,
		 LIBCERROR_ARGUMENT_ERROR_VALUE_EXCEEDS_MAXIMUM,
		 "%s: invalid size value exceeds maximum.",
		 function );

		return( -1 );
	}
	if( size == 0 )
	{
		return( 1 );
	}
	if( internal_context->block_offset > 0 )
"""
NEW = """	if( size == 0 )
	{
		return( 1 );
	}
	if( internal_context->block_offset > 0 )
"""
NEEDS = "an over-long size while a block is partly filled"
BREAKS = "the refused update has already taken bytes into the context (the transform refuses the size too late)"
SOURCES = ["libhmac/libhmac_sha1_context.c"]
LOCAL = True
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include "libhmac_sha1_context.h"
int main( void )
{
	libhmac_sha1_context_t *a = NULL, *b = NULL;
	uint8_t x[ 20 ], y[ 20 ], m[ 256 ];
	memset( m, 5, 256 );
	if( libhmac_sha1_context_initialize( &a, NULL ) != 1 || libhmac_sha1_context_initialize( &b, NULL ) != 1 ) return 2;
	if( libhmac_sha1_context_update( a, m, 10, NULL ) != 1 || libhmac_sha1_context_update( b, m, 10, NULL ) != 1 ) return 2;
	if( libhmac_sha1_context_update( a, m, (size_t) -1, NULL ) != -1 ) return 1;
	if( libhmac_sha1_context_finalize( a, x, 20, NULL ) != 1 || libhmac_sha1_context_finalize( b, y, 20, NULL ) != 1 ) return 2;
	if( memcmp( x, y, 20 ) ) { printf( "a refused update changed the context\n" ); return 1; }
	return 0;
}
'''
