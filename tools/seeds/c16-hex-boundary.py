PROPERTY = "C16"
FILE = "hmactools/digest_hash.c"
OLD = "	if( string_size < ( ( 2 * digest_hash_size ) + 1 ) )"
NEW = "	if( ( string_size / 2 ) < digest_hash_size )"
NEEDS = "a text buffer of exactly twice the digest size"
BREAKS = "the terminator is written one character behind the buffer"
SOURCES = ["hmactools/digest_hash.c"]
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include "hmactools_libcerror.h"
#include "digest_hash.h"
int main( void )
{
	uint8_t d[ 4 ] = { 1, 2, 3, 4 };
	char t[ 12 ];
	memset( t, 'x', 12 );
	if( digest_hash_copy_to_string( d, 4, t, 8, NULL ) == 1 || t[ 8 ] != 'x' ) { printf( "written behind the buffer\n" ); return 1; }
	if( digest_hash_copy_to_string( d, 4, t, 9, NULL ) != 1 || strcmp( t, "01020304" ) ) return 1;
	return 0;
}
'''
