/* C22: sum_handle_set_process_buffer_size on any text of a shape. */
#include "env.h"
#include "sizeoracle.h"
void harness( void )
{
	sum_handle_t *h = NULL;
	libcerror_error_t *e = NULL;
	static chr_t s[ LEN + 1 ];
	uint64_t was, value = 0;
	int r, want, f;
	dp = ndbool() ? '.' : ',';
	shape( s );
	ASSUME( sum_handle_initialize( &h, &e ) == 1 );
	CHECK( h->process_buffer_size == 32768, "the default is 32768" );
	was = nd();
	h->process_buffer_size = (size_t) was;
#if defined( FAULTS )
	t_fail = 1;
#endif
	f = t_failed;
	want = denotes( s, LEN, &value );
	r = sum_handle_set_process_buffer_size( h, s, &e );
	CHECK( r >= -1 && r <= 1, "the result is 1, 0 or -1" );
	CHECK( ( r == -1 ) == ( e != NULL ), "an error is recorded exactly on failure" );
	if( r != 1 ) CHECK( h->process_buffer_size == was, "a refusal keeps the previous value" );
	if( t_failed == f )
	{
		if( want == 1 && value <= (uint64_t) SSIZE_MAX )
		{
			CHECK( r == 1, "a valid size is accepted" );
			CHECK( h->process_buffer_size == value, "the buffer gets exactly the size stated" );
		}
		if( want == 1 && value > (uint64_t) SSIZE_MAX ) CHECK( r == 0, "a size above the supported maximum is refused as unsupported" );
		if( want == 0 ) CHECK( r != 1, "text that is no size, or too large, is refused" );
	}
	else
		CHECK( r == -1, "a failure is reported" );
	t_fail = 0;
	libcerror_error_free( &e );
	CHECK( sum_handle_free( &h, &e ) == 1 && h == NULL && t_live == 0 && files == 0, "everything is released" );
	REACHED();
}
