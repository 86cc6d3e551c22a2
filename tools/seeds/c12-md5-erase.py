PROPERTY = "C12"
FILE = "libhmac/libhmac_md5.c"
OLD = """		memory_set(
        	 key_data,
	         0,
        	 block_size );
"""
NEW = """		memory_set(
        	 key_data,
	         0,
        	 ( inner_padding != NULL ) ? block_size : sizeof( key_hash ) );
"""
NEEDS = "an allocation failure while the HMAC calculation holds the padded key, with a key longer than 16 bytes"
BREAKS = "on one failure path only the first 16 bytes of the padded key are erased before it is released"
SOURCES = ["libhmac/libhmac_md5.c", "libhmac/libhmac_md5_context.c"]
LOCAL = True
FLAGS = "-Dfree=d_free -Dmalloc=d_malloc"
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#undef free
#undef malloc
#include <malloc.h>
#include <stdlib.h>
#include "libhmac_md5.h"
static int bad = 0, count = 0, fail_at = -1;
void *malloc( size_t );
void free( void * );
void *d_malloc( size_t n ) { if( count++ == fail_at ) return NULL; return malloc( n ); }
void d_free( void *p )
{
	size_t i, n = p ? malloc_usable_size( p ) : 0;
	/* a pad is 64 bytes; with a key of bytes 0x11 it holds 0x27 or 0x4d */
	for( i = 0; i + 3 < n; i++ )
		if( !memcmp( (char *) p + i, "\x4d\x4d\x4d\x4d", 4 ) || !memcmp( (char *) p + i, "\x27\x27\x27\x27", 4 ) || !memcmp( (char *) p + i, "\x11\x11\x11\x11", 4 ) ) bad = 1;
	if( p ) memset( p, 0, n );
	free( p );
}
int main( void )
{
	uint8_t key[ 64 ], h[ 16 ];
	libcerror_error_t *e = NULL;
	memset( key, 0x11, 64 );
	for( fail_at = -1; fail_at < 8; fail_at++ )
	{
		count = 0;
		e = NULL;
		libhmac_md5_calculate_hmac( key, 64, (const uint8_t *) "text", 4, h, 16, &e );
		if( bad ) { printf( "released memory holds the key when allocation %d fails\n", fail_at ); return 1; }
	}
	return 0;
}
'''
