PROPERTY = "C18"
FILE = "hmactools/byte_size_string.c"
OLD = "	if( byte_size_string_length < 9 )"
NEW = "	if( byte_size_string_length < 8 )"
NEEDS = "a buffer of 8 characters"
BREAKS = "a buffer below the documented minimum is not refused"
SOURCES = ["hmactools/byte_size_string.c"]
DEMO = r'''
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_libcerror.h"
#include "byte_size_string.h"
int main( void )
{
	char t[ 16 ];
	if( byte_size_string_create( t, 8, 1023 * 1024, BYTE_SIZE_STRING_UNIT_MEBIBYTE, NULL ) != -1 ) { printf( "8 characters are taken\n" ); return 1; }
	return 0;
}
'''
