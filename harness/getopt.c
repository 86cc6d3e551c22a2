/* C24: the fallback option reader against the POSIX reading of the argument vector. */
#include "tool.h"
#include "libc.h"
#include "hmactools_getopt.h"
#if defined( HAVE_GETOPT )
#error the fallback is to be built
#endif
typedef system_character_t chr_t;
int libcnotify_printf( const char *f, ... ) { (void) f; return 0; }
static chr_t buf[ NARGS ][ MAXL + 1 ];
static chr_t *argv_[ NARGS + 2 ];
#if defined( OPTIONS )
static chr_t opts[] = OPTIONS;
#else
static chr_t opts[ 6 ];
#endif
/* 0 unknown, 1 no argument, 2 with an argument */
static int kind( chr_t c )
{
	unsigned i;
	if( c == (chr_t) ':' || c == (chr_t) '?' ) return 0;
	for( i = 0; opts[ i ] != 0; i++ )
		if( opts[ i ] == c )
			return opts[ i + 1 ] == (chr_t) ':' ? 2 : 1;
	return 0;
}
void harness( void )
{
	unsigned i, j, at = 0, argc, len[ NARGS + 1 ], in = 1, calls;
	system_integer_t r, want;
	argc = (unsigned) ndrange( 1, NARGS + 1 );
	argv_[ 0 ] = opts;	/* never looked at */
	for( i = 1; i < argc; i++ )
	{
		unsigned n = (unsigned) ndrange( 0, MAXL );
		chr_t *p = buf[ i - 1 ] + MAXL - n;
		for( j = 0; j < MAXL; j++ )
			if( j < n ) p[ j ] = (chr_t) ndrange( 1, 255 );
		p[ n ] = 0;
		argv_[ i ] = p;
		len[ i ] = n;
		/* what "--text" means is not specified */
		ASSUME( !( n > 2 && p[ 0 ] == '-' && p[ 1 ] == '-' ) );
	}
	argv_[ argc ] = NULL;
#if !defined( OPTIONS )
	for( i = 0; i < 5; i++ )
	{
		opts[ i ] = (chr_t) ndrange( 0, 127 );
		ASSUME( opts[ i ] != '-' && opts[ i ] != '?' );
	}
	opts[ 5 ] = 0;
	ASSUME( opts[ 0 ] != 0 && opts[ 0 ] != ':' );
	for( i = 0; i < 4; i++ ) ASSUME( !( opts[ i ] == ':' && opts[ i + 1 ] == ':' ) );
#endif
	optind = 1;
	/* in: argument read, at: position in it (0: at its start) */
	for( calls = 0; calls < NARGS * MAXL + 1; calls++ )
	{
		const chr_t *arg = NULL;
		int missing = 0, end = 0, k = 0;
		chr_t c = 0;
		if( at == 0 )
		{
			if( in >= argc || len[ in ] < 2 || argv_[ in ][ 0 ] != '-' ) end = 1;
			else if( argv_[ in ][ 1 ] == '-' ) { end = 1; in++; }
			else at = 1;
		}
		if( !end )
		{
			c = argv_[ in ][ at ];
			k = kind( c );
			at++;
			if( k == 2 )
			{
				if( at < len[ in ] ) { arg = argv_[ in ] + at; in++; }
				else if( in + 1 < argc ) { arg = argv_[ in + 1 ]; in += 2; }
				else { missing = 1; in++; }
				at = 0;
			}
			else if( at >= len[ in ] ) { in++; at = 0; }
		}
		r = hmactools_getopt( (int) argc, argv_, opts );
		if( end )
		{
			CHECK( r == -1, "options end at the first operand, at -- or with the vector" );
			CHECK( optind == (int) in, "the index is left at the first operand" );
			REACHED();
			return;
		}
		CHECK( r != -1, "every option is returned" );
		if( k == 0 ) CHECK( r == '?', "an unknown letter is reported" );
		else if( missing ) CHECK( r == ':' || r == '?', "a missing argument is reported" );
		else
		{
			CHECK( r == (system_integer_t) c, "option letters come in order" );
			if( k == 2 ) CHECK( optarg == arg, "an option has its own argument" );
		}
		if( k == 0 || missing ) CHECK( (chr_t) optopt == c, "the letter at fault is named" );
	}
	CHECK( 0, "the options end" );
}
