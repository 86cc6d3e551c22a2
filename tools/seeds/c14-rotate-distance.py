PROPERTY = "C14"
FILE = "common/byte_stream.h"
OLD = "#define byte_stream_bit_rotate_right_64bit( byte_stream, number_of_bits ) \\\n	( ( ( byte_stream ) >> ( number_of_bits ) ) | ( ( byte_stream ) << ( 64 - ( number_of_bits ) ) ) )"
NEW = "#define byte_stream_bit_rotate_right_64bit( byte_stream, number_of_bits ) \\\n	( ( ( byte_stream ) >> ( number_of_bits ) ) | ( ( byte_stream ) << ( 64 - number_of_bits ) ) )"
NEEDS = "a distance given as an expression of lower precedence, such as a conditional or a difference"
BREAKS = "the distance of the left shift is wrong"
SOURCES = []
DEMO = r'''
#include <common.h>
#include <types.h>
#include <byte_stream.h>
#include <stdio.h>
int main( int argc, char **argv )
{
	uint64_t v = 0x0123456789abcdefULL, w = v;
	int a = 12, b = 4;
	w = byte_stream_bit_rotate_right_64bit( v, a - b );
	if( w != 0xef0123456789abcdULL ) { printf( "wrong rotation\n" ); return 1; }
	return 0;
}
'''
