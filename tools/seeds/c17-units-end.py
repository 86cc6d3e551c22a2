PROPERTY = "C17"
FILE = "hmactools/byte_size_string.c"
OLD = """	else if( ( byte_size_string[ byte_size_string_iterator ] == (system_character_t) 'i' )
	      && ( byte_size_string[ byte_size_string_iterator + 1 ] == (system_character_t) 'B' ) )
"""
NEW = """	else if( byte_size_string[ byte_size_string_iterator ] == (system_character_t) 'i' )
"""
NEEDS = "a text whose unit starts with i but is not iB"
BREAKS = "1Ki and 1Kix are taken as 1KiB where they are no unit"
SOURCES = ["hmactools/byte_size_string.c"]
DEMO = r'''
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_libcerror.h"
#include "byte_size_string.h"
int main( void )
{
	uint64_t n = 77;
	if( byte_size_string_convert( "1Kix", 4, &n, NULL ) == 1 || n != 77 ) { printf( "1Kix is read as %llu\n", (unsigned long long) n ); return 1; }
	return 0;
}
'''
