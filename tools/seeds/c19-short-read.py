PROPERTY = "C19"
FILE = "hmactools/sum_handle.c"
OLD = """		     buffer,
		     read_count,
		     error ) != 1 )
"""
NEW = """		     buffer,
		     ( read_count < 16 ) ? read_size : (size_t) read_count,
		     error ) != 1 )
"""
NEEDS = "a read that returns fewer bytes than asked for, and fewer than 16"
BREAKS = "stale bytes of the buffer are hashed behind a short read"
SOURCES = ["hmactools/sum_handle.c", "hmactools/digest_hash.c", "hmactools/byte_size_string.c"] + ["libhmac/libhmac_%s_context.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")]
LOCAL = True
FLAGS = "'-D__declspec(x)='"
DEMO = r'''
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_libcerror.h"
#include "sum_handle.h"

int main( void )
{
	sum_handle_t *h = NULL;
	char a[ 64 ];
	int i;
	static uint8_t m[ 1000 ];
	for( i = 0; i < 1000; i++ ) m[ i ] = (uint8_t) ( i * 3 );
	v_data = m; v_size = 1000;
	for( i = 0; i < 2; i++ )
	{
		v_offset = 0;
		v_most = i ? 7 : 1000;
		if( sum_handle_initialize( &h, NULL ) != 1 || sum_handle_process_input( h, NULL ) != 1 ) return 2;
		if( i == 0 ) strcpy( a, h->calculated_md5_hash_string );
		else if( strcmp( a, h->calculated_md5_hash_string ) ) { printf( "the digest depends on the reads\n" ); return 1; }
		sum_handle_free( &h, NULL );
	}
	return 0;
}
'''
