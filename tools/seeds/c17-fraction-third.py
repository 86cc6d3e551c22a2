PROPERTY = "C17"
FILE = "hmactools/byte_size_string.c"
OLD = """		case 'e':
		case 'E':
			factor = 6;
"""
NEW = """		case 'e':
			factor = 6;
			break;

		case 'E':
			factor = 5;
"""
NEEDS = "a size text in units of E written in upper case"
BREAKS = "1E is read as 1P"
SOURCES = ["hmactools/byte_size_string.c"]
DEMO = r'''
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_libcerror.h"
#include "byte_size_string.h"
int main( void )
{
	uint64_t n = 0;
	if( byte_size_string_convert( "2E", 2, &n, NULL ) != 1 || n != (uint64_t) 2 << 60 ) { printf( "2E is read as %llu\n", (unsigned long long) n ); return 1; }
	return 0;
}
'''
