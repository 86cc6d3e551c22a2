PROPERTY = "C20"
FILE = "hmactools/sum_handle.c"
OLD = """		if( ( *sum_handle )->calculated_sha224_hash_string != NULL )
"""
NEW = """		if( ( *sum_handle )->sha224_context_initialized != 0 )
"""
NEEDS = "SHA-224 selected, and the handle freed before SHA-224 was initialized"
BREAKS = "the digest text is leaked when processing never started or failed early"
SOURCES = ["hmactools/sum_handle.c", "hmactools/digest_hash.c", "hmactools/byte_size_string.c"] + ["libhmac/libhmac_%s_context.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")]
LOCAL = True
FLAGS = "'-D__declspec(x)=' -Dmalloc=d_malloc -Dfree=d_free"
DEMO = r'''
#include <stdlib.h>
static int live;
#undef malloc
#undef free
void *malloc( size_t );
void free( void * );
void *d_malloc( size_t n ) { live++; return malloc( n ); }
void d_free( void *p ) { if( p ) live--; free( p ); }
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_libcerror.h"
#include "sum_handle.h"

int main( void )
{
	sum_handle_t *h = NULL;
	if( sum_handle_initialize( &h, NULL ) != 1 || sum_handle_set_digest_types( h, "sha224", NULL ) != 1 ) return 2;
	if( sum_handle_free( &h, NULL ) != 1 ) return 2;
	if( live ) { printf( "%d allocations are leaked\n", live ); return 1; }
	return 0;
}
'''
