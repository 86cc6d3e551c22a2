/* C23 and C25: the whole tool, from main() to its exit status. */
#include "env.h"
int hmacsum_main( int argc, char * const argv[] );
static char *args[] = { ARGS, NULL };
void harness( void )
{
	static const int want[ 5 ] = { WANT };
	int a, r, all = 1;
	file_size = nd();
	witness_at = nd();
	witness = nd8();
	ASSUME( witness_at < file_size );
	max_reads = MAX_READS;
#if defined( FAULTS )
	t_fail = 1;
	print_may_fail = 1;
	split_missing = 1;
#endif
#if defined( PRINT_FAULTS )
	t_fail = 2;
	print_may_fail = 1;
#endif
#if defined( SIZE_WRONG )
	size_wrong = 1;
#endif
#if defined( INTERRUPTS )
	t_interrupts = INTERRUPTS;
#endif
	r = hmacsum_main( (int) ( sizeof( args ) / sizeof( args[ 0 ] ) ) - 1, args );
	CHECK( r == EXIT_SUCCESS || r == EXIT_FAILURE, "the exit status is success or failure" );
	for( a = 0; a < 5; a++ )
	{
		CHECK( printed[ a ] <= want[ a ], "only selected digests are printed, each once" );
		CHECK( printed[ a ] == 0 || digest_made[ a ] == 1, "a digest printed is of the whole content" );
		if( printed[ a ] != want[ a ] ) all = 0;
	}
	CHECK( printed_wrong == 0, "no line carries another digest" );
#if defined( EXPECT_FAILURE )
	CHECK( r == EXIT_FAILURE, "a call that cannot be served ends in failure" );
#elif defined( EXPECT_NOTHING )
	CHECK( r == EXIT_SUCCESS || t_failed > 0, "help and version end in success" );
#else
	if( r == EXIT_SUCCESS )
	{
		CHECK( all, "success means that every selected digest was printed" );
		CHECK( input_failed == 0, "success means that opening, reading and closing the input succeeded" );
		CHECK( !interrupted, "success means that nothing interrupted the tool" );
	}
#if !defined( SIZE_WRONG )
	if( t_failed == 0 && !interrupted )
		CHECK( r == EXIT_SUCCESS, "the tool succeeds when nothing it needs fails" );
#endif
#endif
	CHECK( opened == NULL || opened == (const chr_t *) args[ OPERAND ], "the first operand is the source" );
	CHECK( largest_read <= BUFFER, "reads use the buffer size set" );
	CHECK( !interrupted || reads_after <= 1, "no further data is read after an interrupt" );
	CHECK( t_live == 0, "all memory is released" );
	CHECK( contexts == 0, "all contexts are freed" );
	CHECK( files == 0 && files_open == 0, "the file is closed and freed" );
	CHECK( splits == 0, "split strings are freed" );
	CHECK( t_errors == 0, "errors are freed" );
	REACHED();
}
