PROPERTY = "C11"
FILE = "libhmac/libhmac_sha512.c"
OLD = """	if( inner_padding != NULL )
	{
		memory_set(
        	 inner_padding,
	         0,
        	 block_size );

		memory_free(
		 inner_padding );
	}
	if( key_data != NULL )
"""
NEW = """	if( ( inner_padding != NULL )
	 && ( block_index != 0 ) )
	{
		memory_set(
        	 inner_padding,
	         0,
        	 block_size );

		memory_free(
		 inner_padding );
	}
	if( key_data != NULL )
"""
NEEDS = "the allocation of the outer padding fails"
BREAKS = "the inner padding is leaked when the outer padding cannot be allocated"
SOURCES = ["libhmac/libhmac_sha512.c", "libhmac/libhmac_sha512_context.c"]
LOCAL = True
FLAGS = "-Dmalloc=d_malloc -Dfree=d_free"
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#undef malloc
#undef free
#include <stdlib.h>
#include "libhmac_sha512.h"
void *malloc( size_t );
void free( void * );
static int live = 0, count = 0, fail_at = -1;
void *d_malloc( size_t n ) { if( count++ == fail_at ) return NULL; live++; return malloc( n ); }
void d_free( void *p ) { if( p ) live--; free( p ); }
int main( void )
{
	uint8_t h[ 64 ];
	for( fail_at = -1; fail_at < 8; fail_at++ )
	{
		count = 0;
		libhmac_sha512_calculate_hmac( (const uint8_t *) "key", 3, (const uint8_t *) "text", 4, h, 64, NULL );
		if( live ) { printf( "%%d allocations are leaked when allocation %%d fails\n", live, fail_at ); return 1; }
	}
	return 0;
}
'''.replace("%%", "%")
