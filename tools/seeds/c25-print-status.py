PROPERTY = "C25"
FILE = "hmactools/hmacsum.c"
OLD = """	if( sum_handle_close(
	     hmacsum_sum_handle,
	     &error ) != 0 )
	{
		fprintf(
		 stderr,
		 "Unable to close sum handle.\\n" );

		goto on_error;
	}
"""
NEW = """	if( sum_handle_close(
	     hmacsum_sum_handle,
	     &error ) != 0 )
	{
		fprintf(
		 stderr,
		 "Unable to close sum handle.\\n" );

		libcerror_error_free(
		 &error );
	}
"""
NEEDS = "the input cannot be closed"
BREAKS = "the tool exits with success although closing failed"
SOURCES = ["hmactools/hmacsum.c", "hmactools/hmactools_output.c", "hmactools/hmactools_signal.c"] + ["hmactools/sum_handle.c", "hmactools/digest_hash.c", "hmactools/byte_size_string.c"] + ["libhmac/libhmac_%s_context.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")]
LOCAL = True
FLAGS = "'-D__declspec(x)=' -Dmain=tool_main '-DPACKAGE_BUGREPORT=\"x\"'"
LIBS = ""
DEMO = r'''
#include <common.h>
#include <types.h>
#include "vtool.c"
#include "hmactools_libcerror.h"
#include "sum_handle.h"

#undef main
extern int optind;
int tool_main( int argc, char * const argv[] );
int main( void )
{
	char *v[] = { "hmacsum", "/dev/null", NULL };
	int i, n;
	static uint8_t m[ 10 ];
	v_data = m; v_size = 10;
	if( freopen( "/dev/null", "w", stdout ) == NULL ) return 2;
	if( tool_main( 2, v ) != 0 ) return 2;
	/* initialize, open, get_size, read, close, free: the close */
	v_calls = 0; v_offset = 0; v_fail = 4; optind = 1;
	if( tool_main( 2, v ) == 0 ) return 1;
	return 0;
}
'''
