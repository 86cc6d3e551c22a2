PROPERTY = "C14"
FILE = "common/byte_stream.h"
OLD = "	( byte_stream )[ 0 ] = (uint8_t) ( ( ( value ) >> 40 ) & 0x0ff ); \\\n	( byte_stream )[ 1 ] = (uint8_t) ( ( ( value ) >> 32 ) & 0x0ff ); \\\n"
NEW = "	( byte_stream )[ 0 ] = (uint8_t) ( ( ( value ) >> 40 ) & 0x07f ); \\\n	( byte_stream )[ 1 ] = (uint8_t) ( ( ( value ) >> 32 ) & 0x0ff ); \\\n"
NEEDS = "a 48 bit value with its highest bit set, big-endian"
BREAKS = "the highest bit is dropped"
SOURCES = []
DEMO = r'''
#include <common.h>
#include <types.h>
#include <byte_stream.h>
#include <stdio.h>
int main( int argc, char **argv )
{
	uint8_t b[ 8 ] = { 0 };
	uint64_t v = 0x812345678901ULL, w = 0;
	byte_stream_copy_from_uint48_big_endian( b, v );
	byte_stream_copy_to_uint48_big_endian( b, w );
	if( v != w ) { printf( "wrong 48 bit conversion\n" ); return 1; }
	return 0;
}
'''
