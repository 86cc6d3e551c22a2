PROPERTY = "C09"
FILE = "libhmac/libhmac_sha224_context.c"
OLD = "	     hash_values_index < 7;"
NEW = "	     hash_values_index < ( ( hash_size >= 32 ) ? 8 : 7 );"
NEEDS = "the build with folded loops and an output buffer of 32 bytes or more"
BREAKS = "an eighth word is written behind the digest"
CFG = "folded"
SOURCES = ["libhmac/libhmac_sha224_context.c", "libhmac/libhmac_sha224.c"]
LOCAL = True
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include "libhmac_sha224.h"
int main( void )
{
	uint8_t h[ 40 ];
	memset( h, 0x77, 40 );
	if( libhmac_sha224_calculate( (const uint8_t *) "abc", 3, h, 40, NULL ) != 1 ) return 2;
	if( h[ 28 ] != 0x77 || h[ 31 ] != 0x77 ) { printf( "bytes behind the digest are written\n" ); return 1; }
	return 0;
}
'''
