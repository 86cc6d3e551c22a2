/* C16: digest_hash_copy_to_string on any digest size up to MAXN, any text buffer size. */
#include "tool.h"
#include "digest_hash.h"
#if !defined( MINN )
#define MINN MAXN
#endif
#if !defined( MAXN )
#define MAXN 66
#endif
static uint8_t dbuf[ MAXN + 1 ];
static system_character_t tbuf[ 2 * MAXN + 1 ];
void harness( void )
{
	libcerror_error_t *e = NULL;
	uint64_t n, s, i;
	uint8_t *d, *copy, di;
	system_character_t *t, old;
	int r;
#if defined( PART_REFUSE )
	/* any sizes for which the text does not fit or a size is over the maximum, and missing pointers: refused, nothing touched */
	n = nd();
	s = nd();
	int nod = ndbool(), not_ = ndbool();
	uint8_t one = nd8();
	system_character_t chr = (system_character_t) ( nd8() & 127 ), was = chr;
	uint8_t dwas = one;
	ASSUME( nod || not_ || n > (uint64_t) SSIZE_MAX || s > (uint64_t) SSIZE_MAX || n >= s || s - n < n + 1 );
	r = digest_hash_copy_to_string( nod ? NULL : &one, (size_t) n, not_ ? NULL : &chr, (size_t) s, &e );
	CHECK( r == -1, "text buffers that are too small and invalid arguments are refused" );
	CHECK( e != NULL, "a refusal records an error" );
	CHECK( chr == was && one == dwas, "a refusal touches nothing" );
#else
	n = ndrange( MINN, MAXN );
	s = nd();
	ASSUME( s >= 2 * n + 1 && s <= (uint64_t) SSIZE_MAX );
	/* the objects are placed so that what may be touched ends where they end */
	d = dbuf + ( MAXN + 1 - n );
	t = tbuf + ( 2 * MAXN - 2 * n );
	i = nd();
	ASSUME( i < ( n ? n : 1 ) );
	di = nd8();
	if( n != 0 ) d[ i ] = di;
	r = digest_hash_copy_to_string( d, (size_t) n, t, (size_t) s, &e );
	CHECK( r == 1, "a text buffer that is large enough is accepted" );
	CHECK( e == NULL, "success records no error" );
	CHECK( t[ 2 * n ] == 0, "the text is terminated after two digits per byte" );
	if( n != 0 )
	{
		uint8_t hi = di >> 4, lo = di & 15;
		CHECK( t[ 2 * i ] == (system_character_t) ( hi < 10 ? '0' + hi : 'a' + hi - 10 ), "digit of the upper half, lower case" );
		CHECK( t[ 2 * i + 1 ] == (system_character_t) ( lo < 10 ? '0' + lo : 'a' + lo - 10 ), "digit of the lower half, lower case" );
		CHECK( d[ i ] == di, "the digest is not modified" );
	}
#endif
	(void) copy; (void) old;
	REACHED();
}
