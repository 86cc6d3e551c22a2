PROPERTY = "C05"
FILE = "libhmac/libhmac_sha512_context.c"
OLD = "	if( internal_context->block_offset > 111 )"
NEW = "	if( internal_context->block_offset > 119 )"
NEEDS = "a message whose length is 112 to 119 modulo 128: the 128 bit length field is taken to be 64 bits"
BREAKS = "such a message is padded into one block, where the standard takes two"
SOURCES = ["libhmac/libhmac_sha512_context.c", "libhmac/libhmac_sha512.c"]
LOCAL = True
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include "libhmac_sha512.h"
int main( void )
{
	static const uint8_t want[ 64 ] = { %s };
	uint8_t m[ 117 ], h[ 64 ];
	memset( m, 'a', 117 );
	if( libhmac_sha512_calculate( m, 117, h, 64, NULL ) != 1 ) return 2;
	if( memcmp( h, want, 64 ) ) { printf( "wrong SHA-512 of 117 bytes\n" ); return 1; }
	return 0;
}
''' % ", ".join("0x%02x" % b for b in __import__("hashlib").sha512(b"a" * 117).digest())
