PROPERTY = "C21"
FILE = "hmactools/sum_handle.c"
OLD = """			          _SYSTEM_STRING( "sha_512" ),
			          7 ) == 0 )
"""
NEW = """			          _SYSTEM_STRING( "sha_512" ),
			          4 ) == 0 )
"""
NEEDS = "a seven character name that starts with sha_ and is none of the known ones"
BREAKS = "sha_384 selects SHA-512"
SOURCES = ["hmactools/sum_handle.c", "hmactools/digest_hash.c", "hmactools/byte_size_string.c"] + ["libhmac/libhmac_%s_context.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")]
LOCAL = True
FLAGS = "'-D__declspec(x)='"
DEMO = r'''
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_libcerror.h"
#include "sum_handle.h"

int main( void )
{
	sum_handle_t *h = NULL;
	if( sum_handle_initialize( &h, NULL ) != 1 || sum_handle_set_digest_types( h, "sha1,sha_384", NULL ) != 1 ) return 2;
	if( h->calculate_sha512 ) { printf( "sha_384 selects SHA-512\n" ); return 1; }
	sum_handle_free( &h, NULL );
	return 0;
}
'''
