/* C17 and C18: byte_size_string_convert and byte_size_string_create. */
#include "tool.h"
#include "byte_size_string.h"
#undef snprintf
#undef swprintf
typedef system_character_t chr_t;
static int dp;			/* the locale's decimal point */
static int locale_ok = 1;
int libclocale_locale_get_decimal_point( int *decimal_point, libcerror_error_t **error )
{
	if( !locale_ok ) { libcerror_error_set( error, 'r', 6, "locale" ); return -1; }
	*decimal_point = dp;
	return 1;
}
int libcnotify_printf( const char *f, ... ) { (void) f; return 0; }

#include "sizeoracle.h"
static chr_t *out_base;
static uint64_t out_size;
static int printed = 0, print_fails = 0;
#if defined( HAVE_WIDE_SYSTEM_CHARACTER )
#define FC wchar_t
#else
#define FC char
#endif
int t_snprintf( void *vb, size_t n, const void *vf, ... )
{
	FC *b = (FC *) vb;
	const FC *f = (const FC *) vf;
	va_list ap;
	size_t at = 0;
	unsigned i = 0, j;
#define PUT( c ) do { if( at + 1 < n ) b[ at ] = (FC) ( c ); at++; } while( 0 )
	printed++;
	CHECK( b == out_base && n <= out_size, "text is written to the caller's buffer and within its size" );
	if( print_fails ) return -1;
	va_start( ap, vf );
	for( i = 0; f[ i ] != 0; i++ )
	{
		if( f[ i ] != '%' ) { PUT( f[ i ] ); continue; }
		i++;
		if( f[ i ] == '%' ) { PUT( '%' ); }
		else if( f[ i ] == 'c' ) { int c = va_arg( ap, int ); PUT( c ); }
		else if( f[ i ] == 's' || ( f[ i ] == 'l' && f[ i + 1 ] == 's' ) )
		{
			const FC *p = va_arg( ap, const FC * );
			if( f[ i ] == 'l' ) i++;
			for( j = 0; j < 6 && p[ j ] != 0; j++ ) PUT( p[ j ] );
		}
		else
		{
			uint64_t v = 0;
			unsigned w, h = 0;
			if( f[ i ] == 'l' ) { while( f[ i ] == 'l' ) i++; v = va_arg( ap, unsigned long ); }
			else { while( f[ i ] == 'h' ) { h++; i++; } v = va_arg( ap, unsigned int ); if( h == 2 ) v = (uint8_t) v; }
			CHECK( f[ i ] == 'u' || f[ i ] == 'd' || f[ i ] == 'i', "a number format" );
			CHECK( v < 10000, "the largest unit not above the size is used" );
			w = (unsigned) ( v & 0xffff );
			if( w >= 1000 ) PUT( '0' + w / 1000 );
			if( w >= 100 ) PUT( '0' + w / 100 % 10 );
			if( w >= 10 ) PUT( '0' + w / 10 % 10 );
			PUT( '0' + w % 10 );
		}
	}
	va_end( ap );
	if( n > 0 ) b[ at < n ? at : n - 1 ] = 0;
	return (int) at;
}
#if defined( SHAPE )
void harness( void )
{
	libcerror_error_t *e = NULL;
	static chr_t s[ LEN + 1 ];
	int r, want;
	uint64_t size, was, value = 0;
	dp = ndbool() ? '.' : ',';
	shape( s );
	was = size = nd();
	want = denotes( s, LEN, &value );
	r = byte_size_string_convert( s, LEN, &size, &e );
	CHECK( r == 1 || r == -1, "the result is 1 or -1" );
	CHECK( ( r == 1 ) == ( e == NULL ), "an error is recorded exactly on refusal" );
	if( r != 1 ) CHECK( size == was, "a refusal leaves the result untouched" );
	if( want == 1 )
	{
		CHECK( r == 1, "a size text is accepted" );
		CHECK( size == value, "the value is what the text denotes" );
	}
	if( want == 0 ) CHECK( r == -1, "text that is no size, or too large, is refused" );
	REACHED();
}
#elif defined( PART_ARGS )
void harness( void )
{
	libcerror_error_t *e = NULL;
	chr_t s[ 9 ] = { '1', 0, 0, 0, 0, 0, 0, 0, 0 }, t[ 9 ];
	uint64_t size = nd(), was = size, n = nd();
	int k = (int) ndrange( 0, 4 ), i;
	dp = '.';
	for( i = 0; i < 9; i++ ) t[ i ] = s[ i ];
	if( k == 0 ) CHECK( byte_size_string_convert( NULL, 1, &size, &e ) == -1, "a missing text is refused" );
	if( k == 1 ) CHECK( byte_size_string_convert( s, 1, NULL, &e ) == -1, "a missing result is refused" );
	if( k == 2 ) { locale_ok = 0; CHECK( byte_size_string_convert( s, 1, &size, &e ) == -1, "a failing locale is reported" ); }
	if( k == 3 ) CHECK( byte_size_string_create( NULL, 100, n, 1024, &e ) == -1, "a missing text buffer is refused" );
	if( k == 4 ) { n = ndrange( 0, 8 ); CHECK( byte_size_string_create( s, (size_t) n, size, ndbool() ? 1024 : 1000, &e ) == -1, "a text buffer below 9 characters is refused" ); }
	CHECK( e != NULL, "a refusal records an error" );
	CHECK( size == was, "a refusal leaves the result untouched" );
	for( i = 0; i < 9; i++ ) CHECK( s[ i ] == t[ i ], "a refusal leaves the text untouched" );
	REACHED();
}
#else
/* formatting: UNITS and FACTOR fixed, every size in that range, every text buffer size */
void harness( void )
{
	libcerror_error_t *e = NULL;
	static chr_t buf[ 16 ];
	uint64_t size, n, w, unit = 1, lower = 1, whole = 0, tenth, back = 0;
	unsigned i, len;
	int r, fraction = 0;
	for( i = 0; i < FACTOR; i++ ) { lower = unit; unit *= UNITS; }
	size = nd();
	ASSUME( size >= unit || FACTOR == 0 );
	if( UINT64_MAX / unit >= UNITS ) ASSUME( size < unit * UNITS );
	n = ndrange( 9, 16 );
	for( i = 0; i < 16; i++ ) buf[ i ] = 'x';
	out_base = buf + 16 - n;
	out_size = n;
	dp = ndbool() ? '.' : ',';
	print_fails = ndbool();
	r = byte_size_string_create( out_base, (size_t) n, size, UNITS, &e );
	CHECK( r == 1 || r == -1, "the result is 1 or -1" );
	CHECK( ( r == 1 ) == ( e == NULL ), "an error is recorded exactly on refusal" );
	if( print_fails ) { CHECK( r == -1, "a failing print is reported" ); }
	else
	{
		CHECK( r == 1, "a buffer of at least 9 characters is enough" );
		/* number */
		for( i = 0; i < 4 && is_digit( out_base[ i ] ); i++ ) whole = whole * 10 + (uint64_t) ( out_base[ i ] - '0' );
		CHECK( i > 0, "the text starts with a number" );
		tenth = 0;
		if( out_base[ i ] == (chr_t) dp )
		{
			CHECK( is_digit( out_base[ i + 1 ] ) && !is_digit( out_base[ i + 2 ] ), "one fraction digit" );
			tenth = (uint64_t) ( out_base[ i + 1 ] - '0' );
			fraction = 1;
			i += 2;
		}
		CHECK( out_base[ i ] == ' ', "a space before the unit" );
		i++;
		if( FACTOR > 0 ) { CHECK( out_base[ i ] == "?KMGTPEZY"[ FACTOR ], "the largest unit not above the size" ); i++; }
		if( UNITS == 1024 && FACTOR > 0 ) { CHECK( out_base[ i ] == 'i', "binary unit" ); i++; }
		CHECK( out_base[ i ] == 'B', "unit" );
		CHECK( out_base[ i + 1 ] == 0, "terminated" );
		len = i + 1;
		CHECK( len + 1 <= n, "within the buffer" );
		for( i = 0; i < 16 - n && i < 16; i++ ) CHECK( buf[ i ] == 'x', "nothing outside the buffer is written" );
		/* the number is the size over the unit, truncated to what is printed */
		w = size - whole * unit;
		CHECK( whole < 2000 && whole * unit <= size && w < unit, "the whole part is the size over the unit, truncated" );
		if( fraction )
		{
			/* tenth <= 10 w / unit < tenth + 1, in the next smaller unit, which is what is truncated first */
			uint64_t l = w / lower;
			CHECK( tenth * UNITS <= l * 10 && l * 10 < ( tenth + 1 ) * UNITS, "the fraction digit is truncated" );
		}
#if defined( READBACK )
		over = 0;
		r = byte_size_string_convert( out_base, len, &back, &e );
		CHECK( r == 1, "the text can be read back" );
		CHECK( back <= size, "reading back does not exceed the size" );
		CHECK( size - back < ( fraction ? unit / 10 + 2 * lower : unit ), "reading back loses less than the last digit printed" );
#endif
	}
	REACHED();
}
#endif
