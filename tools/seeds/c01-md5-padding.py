PROPERTY = "C01"
FILE = "libhmac/libhmac_md5_context.c"
OLD = "if( internal_context->block_offset > 55 )"
NEW = "if( internal_context->block_offset > 56 )"
NEEDS = "a message whose length is 56 modulo 64"
BREAKS = "the padding of such a message is squeezed into one block: the bit length overwrites the 0x80 byte"
SOURCES = ["libhmac/libhmac_md5_context.c", "libhmac/libhmac_md5.c"]
LOCAL = True
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include "libhmac_md5.h"
int main( void )
{
	static const uint8_t want[ 16 ] = { %s };
	uint8_t m[ 56 ], h[ 16 ];
	memset( m, 'a', 56 );
	if( libhmac_md5_calculate( m, 56, h, 16, NULL ) != 1 ) return 2;
	if( memcmp( h, want, 16 ) ) { printf( "wrong MD5 of 56 bytes\n" ); return 1; }
	return 0;
}
''' % ", ".join("0x%02x" % b for b in __import__("hashlib").md5(b"a" * 56).digest())
