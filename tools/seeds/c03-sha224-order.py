PROPERTY = "C03"
FILE = "libhmac/libhmac_sha224_context.c"
OLD = "		 internal_context->hash_values[ hash_values_index ] );"
NEW = "		 internal_context->hash_values[ ( internal_context->hash_count == 192 ) ? 7 - hash_values_index : hash_values_index ] );"
NEEDS = "the build with folded loops and a message of 192 to 255 bytes"
BREAKS = "the words of the digest are taken in another order"
CFG = "folded"
SOURCES = ["libhmac/libhmac_sha224_context.c", "libhmac/libhmac_sha224.c"]
LOCAL = True
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include "libhmac_sha224.h"
int main( void )
{
	static const uint8_t want[ 28 ] = { %s };
	uint8_t m[ 200 ], h[ 28 ];
	memset( m, 'a', 200 );
	if( libhmac_sha224_calculate( m, 200, h, 28, NULL ) != 1 ) return 2;
	if( memcmp( h, want, 28 ) ) { printf( "wrong SHA-224 of 200 bytes\n" ); return 1; }
	return 0;
}
''' % ", ".join("0x%02x" % b for b in __import__("hashlib").sha224(b"a" * 200).digest())
