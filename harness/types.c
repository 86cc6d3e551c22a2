/* C21: sum_handle_set_digest_types on any names, once or twice. */
#include "env.h"
#if !defined( CALLS )
#define CALLS 1
#endif
static char lower( chr_t c ) { return ( c >= (chr_t) 'A' && c <= (chr_t) 'Z' ) ? (char) ( c - 'A' + 'a' ) : (char) c; }
static int is_upper( chr_t c ) { return c >= (chr_t) 'A' && c <= (chr_t) 'Z'; }
static const char *names[ 5 ] = { "md5", "sha1", "sha224", "sha256", "sha512" };
/* the name of an algorithm, all in lower or all in upper case, with or without - or _ before the number of a sha */
static int names_alg( const chr_t *p, unsigned n, int a )
{
	unsigned i, k = 0, up;
	if( n < 3 ) return 0;
	up = (unsigned) is_upper( p[ 0 ] );
	for( i = 0; i < n; i++ )
	{
		if( k == 3 && i == 3 && a != ALG_MD5 && ( p[ i ] == (chr_t) '-' || p[ i ] == (chr_t) '_' ) ) continue;
		if( names[ a ][ k ] == 0 || lower( p[ i ] ) != names[ a ][ k ] ) return 0;
		if( names[ a ][ k ] >= 'a' && (unsigned) is_upper( p[ i ] ) != up ) return 0;
		k++;
	}
	return names[ a ][ k ] == 0;
}
void harness( void )
{
	sum_handle_t *h = NULL;
	libcerror_error_t *e = NULL;
	static chr_t text[ 4 ] = { 'a', 'b', 'c', 0 };
	int want[ 5 ] = { 1, 0, 0, 0, 0 };
	int r = 0, a, f, c, ok = 1;
	unsigned i, j;
	seg_of = text;
	seg_of_size = 4;
	ASSUME( sum_handle_initialize( &h, &e ) == 1 );
#if defined( FAULTS )
	t_fail = 1;
	split_missing = 1;
#endif
	for( c = 0; c < CALLS; c++ )
	{
		for( i = 0; i < SEGMENTS; i++ )
		{
			/* characters after the end are left as they come */
			for( j = 0; j <= SEGMENT_MAX; j++ ) seg_text[ i ][ j ] = (chr_t) ndrange( 0, 255 );
			seg_size[ i ] = (unsigned) ndrange( 1, SEGMENT_MAX + 1 );
			seg_text[ i ][ seg_size[ i ] - 1 ] = 0;
			for( j = 0; j + 1 < seg_size[ i ]; j++ ) ASSUME( seg_text[ i ][ j ] != 0 && seg_text[ i ][ j ] != (chr_t) ',' );
			for( a = 0; a < 5; a++ )
				if( names_alg( seg_text[ i ], seg_size[ i ] - 1, a ) ) want[ a ] = 1;
		}
		f = t_failed;
		r = sum_handle_set_digest_types( h, text, &e );
		CHECK( r == 1 || r == -1, "the documented code is returned" );
		CHECK( ( r == 1 ) == ( t_failed == f ), "the call fails exactly when something it needs failed" );
		CHECK( ( e != NULL ) == ( r != 1 ), "an error is recorded exactly on failure" );
		libcerror_error_free( &e );
		CHECK( splits == 0, "the split string is released" );
		if( r != 1 ) ok = 0;
	}
	t_fail = 0;
	if( ok )
		CHECK( !h->calculate_md5 == !want[ ALG_MD5 ] && !h->calculate_sha1 == !want[ ALG_SHA1 ] && !h->calculate_sha224 == !want[ ALG_SHA224 ]
		    && !h->calculate_sha256 == !want[ ALG_SHA256 ] && !h->calculate_sha512 == !want[ ALG_SHA512 ], "exactly the named algorithms are selected" );
	CHECK( sum_handle_free( &h, &e ) == 1 && h == NULL && t_live == 0 && files == 0 && contexts == 0, "everything is released" );
	REACHED();
}
