PROPERTY = "C22"
FILE = "hmactools/sum_handle.c"
OLD = """		if( size_variable > (uint64_t) SSIZE_MAX )
"""
NEW = """		if( (int64_t) ( size_variable << 1 ) < 0 )
"""
NEEDS = "a size of 2^63 or more whose second bit is clear"
BREAKS = "such a size is accepted"
SOURCES = ["hmactools/sum_handle.c", "hmactools/digest_hash.c", "hmactools/byte_size_string.c"] + ["libhmac/libhmac_%s_context.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")]
LOCAL = True
FLAGS = "'-D__declspec(x)='"
DEMO = r'''
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_libcerror.h"
#include "sum_handle.h"

int main( void )
{
	sum_handle_t *h = NULL;
	int r;
	if( sum_handle_initialize( &h, NULL ) != 1 ) return 2;
	r = sum_handle_set_process_buffer_size( h, "8E", NULL );
	if( r == 1 || h->process_buffer_size != 32768 ) { printf( "8 EiB is taken\n" ); return 1; }
	r = sum_handle_set_process_buffer_size( h, "6E", NULL );
	if( r != 1 || h->process_buffer_size != (size_t) 6 << 60 ) { printf( "6 EiB is refused\n" ); return 1; }
	sum_handle_free( &h, NULL );
	return 0;
}
'''
