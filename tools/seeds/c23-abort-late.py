PROPERTY = "C23"
FILE = "hmactools/sum_handle.c"
OLD = """		process_count += read_count;

		if( sum_handle->abort != 0 )
"""
NEW = """		process_count += read_count;

		if( ( sum_handle->abort != 0 )
		 && ( (size_t) read_count == sum_handle->process_buffer_size ) )
"""
NEEDS = "an interrupt during a read that returns less than a full buffer, with more to read"
BREAKS = "the tool goes on reading after the interrupt"
SOURCES = ["hmactools/sum_handle.c", "hmactools/digest_hash.c", "hmactools/byte_size_string.c"] + ["libhmac/libhmac_%s_context.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")]
LOCAL = True
FLAGS = "'-D__declspec(x)='"
DEMO = r'''
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_libcerror.h"
#include "sum_handle.h"

static sum_handle_t *h;
static void hook( int n ) { if( n == 2 ) sum_handle_signal_abort( h, NULL ); }
int main( void )
{
	static uint8_t m[ 1000 ];
	v_data = m; v_size = 1000; v_most = 100; v_hook = hook;
	if( sum_handle_initialize( &h, NULL ) != 1 ) return 2;
	sum_handle_process_input( h, NULL );
	if( v_reads != 3 ) { printf( "%d reads, with the interrupt during the third\n", v_reads ); return 1; }
	sum_handle_free( &h, NULL );
	return 0;
}
'''
