PROPERTY = "C24"
FILE = "hmactools/hmactools_getopt.c"
OLD = """		if( argument_count <= optind )
"""
NEW = """		if( argument_count < optind )
"""
NEEDS = "an option that takes an argument as the last character of the last argument"
BREAKS = "the argument is read from behind the vector (its terminating NULL) in place of being reported as missing"
SOURCES = ["hmactools/hmactools_getopt.c"]
GETOPT = False
DEMO = r'''
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_getopt.h"
int main( void )
{
	char *v[] = { "x", "-vp", NULL };
	int a, b;
	a = hmactools_getopt( 2, v, "d:hp:vV" );
	b = hmactools_getopt( 2, v, "d:hp:vV" );
	if( a != 'v' || ( b != '?' && b != ':' ) ) { printf( "a missing argument is taken\n" ); return 1; }
	return 0;
}
'''
