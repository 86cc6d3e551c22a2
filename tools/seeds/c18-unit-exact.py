PROPERTY = "C18"
FILE = "hmactools/byte_size_string.c"
OLD = "		while( factored_size >= (uint64_t) units )"
NEW = "		while( factored_size > (uint64_t) units )"
NEEDS = "a size that is an exact power of the unit, two or more"
BREAKS = "1024 KiB is written as 1024 KiB in place of 1.0 MiB, which needs more room than there is"
SOURCES = ["hmactools/byte_size_string.c"]
DEMO = r'''
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_libcerror.h"
#include "byte_size_string.h"
int main( void )
{
	char t[ 16 ];
	if( byte_size_string_create( t, 16, 1024 * 1024, BYTE_SIZE_STRING_UNIT_MEBIBYTE, NULL ) != 1 || strcmp( t, "1.0 MiB" ) ) { printf( "%s\n", t ); return 1; }
	return 0;
}
'''
