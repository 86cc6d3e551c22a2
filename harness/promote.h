/* Default argument promotions for calls of variadic stand-ins: the model checker passes small integers unpromoted. */
#if !defined( VERIF_PROMOTE_H )
#define VERIF_PROMOTE_H
#include <stdio.h>
#include <wchar.h>
int t_snprintf( void *b, size_t n, const void *f, ... );
int t_fprintf( FILE *s, const char *f, ... );
#define PR_( x ) ( ( x ) + 0 )
#define PR_0( ... )
#define PR_1( a ) , PR_( a )
#define PR_2( a, ... ) , PR_( a ) PR_1( __VA_ARGS__ )
#define PR_3( a, ... ) , PR_( a ) PR_2( __VA_ARGS__ )
#define PR_4( a, ... ) , PR_( a ) PR_3( __VA_ARGS__ )
#define PR_5( a, ... ) , PR_( a ) PR_4( __VA_ARGS__ )
#define PR_6( a, ... ) , PR_( a ) PR_5( __VA_ARGS__ )
#define PR_7( a, ... ) , PR_( a ) PR_6( __VA_ARGS__ )
#define PR_8( a, ... ) , PR_( a ) PR_7( __VA_ARGS__ )
#define PR_N( z, a, b, c, d, e, f, g, h, n, ... ) n
#define PR_ALL( ... ) PR_X( PR_N( 0, ## __VA_ARGS__, PR_8, PR_7, PR_6, PR_5, PR_4, PR_3, PR_2, PR_1, PR_0 ), ## __VA_ARGS__ )
#define PR_X( m, ... ) m( __VA_ARGS__ )
#define snprintf( b, n, f, ... ) t_snprintf( b, n, f PR_ALL( __VA_ARGS__ ) )
#define swprintf( b, n, f, ... ) t_snprintf( b, n, f PR_ALL( __VA_ARGS__ ) )
#if defined( PROMOTE_FPRINTF )
extern FILE *t_stdout, *t_stderr;
int t_fputs( const char *p, FILE *s );
int t_fputc( int c, FILE *s );
int t_ferror( FILE *s );
int t_fflush( FILE *s );
int t_setvbuf( FILE *s, char *b, int m, size_t n );
int t_close( int fd );
#undef stdout
#undef stderr
#define stdout t_stdout
#define stderr t_stderr
#define fputs( p, s ) t_fputs( p, s )
#undef putc
#define putc( c, s ) t_fputc( c, s )
#define fputc( c, s ) t_fputc( c, s )
#undef ferror
#define ferror( s ) t_ferror( s )
#define fflush( s ) t_fflush( s )
#define setvbuf( s, b, m, n ) t_setvbuf( s, b, m, n )
#define fprintf( s, f, ... ) t_fprintf( s, f PR_ALL( __VA_ARGS__ ) )
#define printf( f, ... ) t_fprintf( stdout, f PR_ALL( __VA_ARGS__ ) )
#endif
#endif
