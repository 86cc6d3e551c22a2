/* C19 and C20: the handle's operations on a file of any size, read in any way, with any failures. */
#include "env.h"
#include "hmactools_signal.h"
static int op( int r, int ok, int before, libcerror_error_t **e, int named )
{
	CHECK( r == ok || r == -1, "an operation returns its documented code" );
	CHECK( ( r == ok ) == ( t_failed == before ), "an operation fails exactly when something it needs failed" );
	CHECK( ( *e != NULL ) == ( r != ok ), "an error is recorded exactly on failure" );
	libcerror_error_free( e );
	return r == ok;
}
void harness( void )
{
	sum_handle_t *h = NULL;
	libcerror_error_t *e = NULL;
	int a, ok, f;
	static chr_t name[ 2 ] = { 'f', 0 };
#if defined( TYPES )
	static chr_t types[] = TYPES;
#endif
	static const int want[ 5 ] = { WANT };
	file_size = nd();
	witness_at = nd();
	witness = nd8();
	ASSUME( witness_at < file_size );
	max_reads = MAX_READS;
#if defined( FAULTS )
	t_fail = 1;
	print_may_fail = 1;
	split_missing = 1;
#endif
#if defined( SIZE_WRONG )
	size_wrong = 1;
#endif
	f = t_failed;
	ok = op( sum_handle_initialize( &h, &e ), 1, f, &e, 0 );
	CHECK( ok == ( h != NULL ), "the reference is set exactly on success" );
	if( ok )
	{
#if defined( TYPES )
		f = t_failed;
		ok = op( sum_handle_set_digest_types( h, types, &e ), 1, f, &e, 0 );
#endif
#if defined( BUFFER )
		h->process_buffer_size = BUFFER;
#else
		h->process_buffer_size = (size_t) ndrange( 1, BUFFER_MAX );
#endif
		f = t_failed;
		if( ok ) ok = op( sum_handle_open_input( h, name, &e ), 1, f, &e, 0 );
		if( ok )
		{
			int r;
			CHECK( opened == name, "the file named is opened" );
			f = t_failed;
			r = sum_handle_process_input( h, &e );
			CHECK( r == 1 || r == -1, "processing returns 1 or -1" );
			if( t_failed != f ) CHECK( r == -1, "processing reports every failure" );
			CHECK( ( r == 1 ) == ( e == NULL ), "an error is recorded exactly on failure" );
#if !defined( SIZE_WRONG )
			if( t_failed == f ) CHECK( r == 1, "processing a readable file works" );
#endif
			libcerror_error_free( &e );
			ok = r == 1;
			CHECK( largest_read <= h->process_buffer_size, "reads use the buffer size set" );
		}
		if( ok )
		{
			for( a = 0; a < 5; a++ )
				CHECK( digest_made[ a ] == want[ a ], "each selected digest, and no other, is of the whole content" );
			f = t_failed;
			ok = op( sum_handle_hash_values_fprint( h, t_stdout, &e ), 1, f, &e, 0 );
			for( a = 0; ok && a < 5; a++ )
				CHECK( printed[ a ] == want[ a ], "each selected digest is printed once, as computed" );
			CHECK( printed_wrong == 0, "no line carries another digest" );
		}
		else
			CHECK( printed_wrong == 0 && printed[ 0 ] + printed[ 1 ] + printed[ 2 ] + printed[ 3 ] + printed[ 4 ] == 0, "nothing is printed of a file that could not be read in full" );
		f = t_failed;
		if( ndbool() ) op( sum_handle_close( h, &e ), 0, f, &e, 0 );
		f = t_failed;
		op( sum_handle_free( &h, &e ), 1, f, &e, 0 );
	}
	CHECK( h == NULL, "the reference is empty after freeing" );
	CHECK( t_live == 0, "all memory is released" );
	CHECK( contexts == 0, "all contexts are freed" );
	CHECK( files == 0 && files_open == 0, "the file is closed and freed" );
	CHECK( splits == 0, "split strings are freed" );
	CHECK( t_errors == 0, "errors are freed" );
	REACHED();
}
