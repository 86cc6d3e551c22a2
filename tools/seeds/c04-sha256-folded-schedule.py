PROPERTY = "C04"
FILE = "libhmac/libhmac_sha256_context.c"
OLD = "\t\t     value_32bit_index < 64;"
NEW = "\t\t     value_32bit_index < 63;"
NEEDS = "the build with folded loops; the last message schedule word then keeps what an earlier block left on the stack"
BREAKS = "the last word of the message schedule is not computed"
CFG = "folded"
NTH = 0
SOURCES = ["libhmac/libhmac_sha256_context.c", "libhmac/libhmac_sha256.c"]
LOCAL = True
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include "libhmac_sha256.h"
int main( void )
{
	static const uint8_t want[ 32 ] = { %s };
	uint8_t h[ 32 ];
	if( libhmac_sha256_calculate( (const uint8_t *) "abc", 3, h, 32, NULL ) != 1 ) return 2;
	if( memcmp( h, want, 32 ) ) { printf( "wrong SHA-256\n" ); return 1; }
	return 0;
}
''' % ", ".join("0x%02x" % b for b in __import__("hashlib").sha256(b"abc").digest())
