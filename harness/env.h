/* The tool's environment: files, split strings, digest contexts, streams, signals and the locale, each call of which may
 * fail (t_fail) and may be the moment an interrupt arrives (t_interrupts). */
#if !defined( VERIF_ENV_H )
#define VERIF_ENV_H
#include "tool.h"
#include "libc.h"
#include "hmactools_libcfile.h"
#include "hmactools_libcsplit.h"
#include "hmactools_libhmac.h"
#include "sum_handle.h"
#undef fprintf
#undef printf
#undef stdout
#undef stderr
typedef system_character_t chr_t;
#define ALG_MD5 0
#define ALG_SHA1 1
#define ALG_SHA224 2
#define ALG_SHA256 3
#define ALG_SHA512 4
static const char *alg_name[ 5 ] = { "MD5", "SHA1", "SHA224", "SHA256", "SHA512" };
static const unsigned alg_size[ 5 ] = { 16, 20, 28, 32, 64 };

/* interrupts */
static int t_interrupts = 0;	/* interrupts still to come at most */
static int interrupted = 0;	/* an interrupt was delivered */
static int in_handler = 0;
static void (*handler)( int ) = NULL;
static int handler_set = 0;
static long reads_after = 0;
static void moment( void )
{
	if( t_interrupts > 0 && handler_set && !in_handler && ndbool() )
	{
		t_interrupts--;
		interrupted = 1;
		in_handler = 1;
#if defined( HANDLER )
		HANDLER( 2 );
#else
		handler( 2 );
#endif
		in_handler = 0;
	}
}
#define FAULT() ( moment(), ( t_fail == 1 && !in_handler && ndbool() ) ? ( t_failed++, 1 ) : 0 )
static void env_error( libcerror_error_t **error ) { libcerror_error_set( error, 'r', 0, "environment" ); }

/* files: the content is arbitrary; one arbitrary byte of it is followed through the tool */
typedef struct { int open; uint64_t pos; } file_t_;
static long files = 0, files_open = 0;
static uint64_t file_size, witness_at;
static uint8_t witness;
static unsigned reads = 0, max_reads = 3;
static uint64_t largest_read = 0;
static int file_short = 0;		/* the file ended early or failed */
static int size_wrong = 0;
int libcfile_file_initialize( libcfile_file_t **file, libcerror_error_t **error )
{
	file_t_ *f;
	CHECK( file != NULL && *file == NULL, "a file is created into an empty reference" );
	if( FAULT() ) { env_error( error ); return -1; }
	f = (file_t_ *) malloc( sizeof( file_t_ ) );
	ASSUME( f != NULL );
	f->open = 0;
	f->pos = 0;
	files++;
	*file = (libcfile_file_t *) f;
	return 1;
}
int libcfile_file_free( libcfile_file_t **file, libcerror_error_t **error )
{
	int r = 1;
	moment();
	if( file == NULL ) { env_error( error ); return -1; }
	if( *file != NULL )
	{
		file_t_ *f = (file_t_ *) *file;
		if( f->open ) { files_open--; if( FAULT() ) { env_error( error ); r = -1; } }
		free( f );
		*file = NULL;
		files--;
	}
	return r;
}
static long input_failed = 0;
#define INPUT_FAULT() ( FAULT() && ++input_failed )
static int file_open( libcfile_file_t *file, libcerror_error_t **error )
{
	file_t_ *f = (file_t_ *) file;
	if( f == NULL ) { env_error( error ); return -1; }
	if( INPUT_FAULT() ) { env_error( error ); return -1; }
	CHECK( !f->open, "a file is opened once" );
	f->open = 1;
	f->pos = 0;
	files_open++;
	return 1;
}
static const chr_t *opened = NULL;
int libcfile_file_open( libcfile_file_t *file, const char *filename, int access_flags, libcerror_error_t **error )
{
	CHECK( access_flags == LIBCFILE_OPEN_READ, "the input is opened for reading only" );
	opened = (const chr_t *) filename;
	return file_open( file, error );
}
int libcfile_file_open_wide( libcfile_file_t *file, const wchar_t *filename, int access_flags, libcerror_error_t **error )
{
	CHECK( access_flags == LIBCFILE_OPEN_READ, "the input is opened for reading only" );
	opened = (const chr_t *) filename;
	return file_open( file, error );
}
int libcfile_file_close( libcfile_file_t *file, libcerror_error_t **error )
{
	file_t_ *f = (file_t_ *) file;
	moment();
	if( f == NULL ) { env_error( error ); return -1; }
	if( f->open )
	{
		f->open = 0;
		files_open--;
		if( INPUT_FAULT() ) { env_error( error ); return -1; }
	}
	moment();
	return 0;
}
int libcfile_file_is_open( libcfile_file_t *file, libcerror_error_t **error )
{
	if( file == NULL ) { env_error( error ); return -1; }
	return ( (file_t_ *) file )->open;
}
int libcfile_file_get_size( libcfile_file_t *file, uint64_t *size, libcerror_error_t **error )
{
	file_t_ *f = (file_t_ *) file;
	if( f == NULL || size == NULL || !f->open || INPUT_FAULT() ) { env_error( error ); return -1; }
	*size = file_size;
	moment();
	return 1;
}
ssize_t libcfile_file_read_buffer( libcfile_file_t *file, uint8_t *buffer, size_t size, libcerror_error_t **error )
{
	file_t_ *f = (file_t_ *) file;
	uint64_t n;
	/* here, where the count stays a constant for the model checker */
	reads++;
	if( reads > max_reads ) ASSUME( 0 );
	if( f == NULL || buffer == NULL || size > (size_t) SSIZE_MAX || !f->open ) { env_error( error ); return -1; }
	if( interrupted ) reads_after++;
	if( size > largest_read ) largest_read = size;
	CHECK( R_OK( buffer, size ), "the read buffer has the size stated" );
	if( INPUT_FAULT() ) { file_short = 1; env_error( error ); return -1; }
	n = nd();
	ASSUME( n <= size );
	/* the size said may not be what can be read */
	if( f->pos > UINT64_MAX - n ) ASSUME( 0 );
	if( !size_wrong )
	{
		ASSUME( f->pos <= file_size && n <= file_size - f->pos );
		ASSUME( n > 0 || size == 0 || f->pos == file_size );
	}
	if( n > 0 )
	{
		buffer[ 0 ] = nd8();
		buffer[ n - 1 ] = nd8();
	}
	if( witness_at >= f->pos && witness_at - f->pos < n )
		buffer[ witness_at - f->pos ] = witness;
	f->pos += n;
	moment();
	return (ssize_t) n;
}
int libcfile_file_get_offset( libcfile_file_t *file, int64_t *offset, libcerror_error_t **error )
{
	if( file == NULL || offset == NULL ) { env_error( error ); return -1; }
	*offset = (int64_t) ( (file_t_ *) file )->pos;
	return 1;
}
int64_t libcfile_file_seek_offset( libcfile_file_t *file, int64_t offset, int whence, libcerror_error_t **error )
{
	file_t_ *f = (file_t_ *) file;
	if( f == NULL || !f->open || INPUT_FAULT() ) { env_error( error ); return -1; }
	if( whence == SEEK_SET ) f->pos = (uint64_t) offset;
	else if( whence == SEEK_CUR ) f->pos += (uint64_t) offset;
	else f->pos = file_size + (uint64_t) offset;
	return (int64_t) f->pos;
}

/* split strings, as libcsplit does it: segments end in a terminator, which their size includes */
#if !defined( SPLIT_MAX )
#define SPLIT_MAX 40
#endif
typedef struct { unsigned count; unsigned start[ SPLIT_MAX + 1 ], size[ SPLIT_MAX + 1 ]; chr_t text[ SPLIT_MAX + 1 ]; } split_t;
static long splits = 0;
#if defined( SEGMENTS )
/* any segments: what the text splits into is the library's business */
static chr_t seg_text[ SEGMENTS ][ SEGMENT_MAX + 1 ];
static unsigned seg_size[ SEGMENTS ];
static const chr_t *seg_of = NULL;
static size_t seg_of_size = 0;
#endif
static int split_string( const chr_t *s, size_t n, chr_t delimiter, split_t **out, libcerror_error_t **error )
{
	split_t *p;
	unsigned i, last = 0;
	if( s == NULL || out == NULL || *out != NULL || n > SPLIT_MAX + 1 || FAULT() ) { env_error( error ); return -1; }
	p = (split_t *) malloc( sizeof( split_t ) );
	ASSUME( p != NULL );
	p->count = 0;
#if defined( SEGMENTS )
	(void) i; (void) last;
	CHECK( s == seg_of && n == seg_of_size && delimiter == (chr_t) ',', "the whole text is split at commas" );
	p->count = SEGMENTS;
#else
	for( i = 0; i < n; i++ )
	{
		chr_t c = s[ i ];
		p->text[ i ] = c;
		if( i == n - 1 ) CHECK( c == 0, "the text split is terminated within its size" );
		if( c == delimiter || c == 0 )
		{
			p->text[ i ] = 0;
			p->start[ p->count ] = last;
			p->size[ p->count ] = i - last + 1;
			p->count++;
			last = i + 1;
			if( c == 0 ) break;
		}
	}
#endif
	splits++;
	*out = p;
	return 1;
}
static int split_free( split_t **p, libcerror_error_t **error )
{
	if( p == NULL ) { env_error( error ); return -1; }
	if( *p != NULL ) { free( *p ); *p = NULL; splits--; }
	if( FAULT() ) { env_error( error ); return -1; }
	return 1;
}
static int split_count( split_t *p, int *n, libcerror_error_t **error )
{
	if( p == NULL || n == NULL || FAULT() ) { env_error( error ); return -1; }
	*n = (int) p->count;
	return 1;
}
static int split_missing = 0;
static int split_get( split_t *p, int i, chr_t **s, size_t *n, libcerror_error_t **error )
{
	if( p == NULL || i < 0 || i >= (int) p->count || s == NULL || n == NULL || FAULT() ) { env_error( error ); return -1; }
#if defined( SEGMENTS )
	*s = seg_text[ i ];
	*n = seg_size[ i ];
#else
	*s = p->text + p->start[ i ];
	*n = p->size[ i ];
#endif
	if( split_missing && t_fail && ndbool() ) { t_failed++; *s = NULL; }
	return 1;
}
int libcsplit_narrow_string_split( const char *s, size_t n, char d, libcsplit_narrow_split_string_t **o, libcerror_error_t **e ) { return split_string( (const chr_t *) s, n, (chr_t) d, (split_t **) o, e ); }
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **p, libcerror_error_t **e ) { return split_free( (split_t **) p, e ); }
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *p, int *n, libcerror_error_t **e ) { return split_count( (split_t *) p, n, e ); }
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *p, int i, char **s, size_t *n, libcerror_error_t **e ) { return split_get( (split_t *) p, i, (chr_t **) s, n, e ); }

/* digest contexts: they record what they were given */
typedef struct { int alg, used; uint64_t off; } ctx_t;
static long contexts = 0;
static int digest_made[ 5 ] = { 0, 0, 0, 0, 0 };	/* 1: of the whole content, 2: of something else */
static int digest_started[ 5 ] = { 0, 0, 0, 0, 0 };
static uint8_t digest_of( int alg, unsigned i ) { return (uint8_t) ( 16 * ( ( alg + i + 10 ) % 16 ) + ( 7 * i + alg + 3 ) % 16 ); }
static int ctx_initialize( int alg, ctx_t **c, libcerror_error_t **error )
{
	ctx_t *p;
	if( c == NULL || *c != NULL || FAULT() ) { env_error( error ); return -1; }
	p = (ctx_t *) malloc( sizeof( ctx_t ) );
	ASSUME( p != NULL );
	p->alg = alg;
	p->used = 0;
	p->off = 0;
	contexts++;
	digest_started[ alg ]++;
	*c = p;
	return 1;
}
static int ctx_free( ctx_t **c, libcerror_error_t **error )
{
	if( c == NULL ) { env_error( error ); return -1; }
	moment();
	if( *c != NULL ) { free( *c ); *c = NULL; contexts--; }
	if( FAULT() ) { env_error( error ); return -1; }
	return 1;
}
static int ctx_update( int alg, ctx_t *c, const uint8_t *b, size_t n, libcerror_error_t **error )
{
	if( c == NULL || b == NULL || n > (size_t) SSIZE_MAX ) { env_error( error ); return -1; }
	CHECK( c->alg == alg, "a context is used with its own algorithm" );
	CHECK( !c->used, "a finalized context is not updated" );
	CHECK( R_OK( b, n ), "an update's buffer has the size stated" );
	if( FAULT() ) { env_error( error ); return -1; }
	if( witness_at >= c->off && witness_at - c->off < n )
		CHECK( b[ witness_at - c->off ] == witness, "every byte of the content reaches the digest in its place" );
	c->off += n;
	return 1;
}
static int ctx_finalize( int alg, ctx_t *c, uint8_t *h, size_t n, libcerror_error_t **error )
{
	unsigned i;
	if( c == NULL || h == NULL || n < alg_size[ alg ] ) { env_error( error ); return -1; }
	CHECK( c->alg == alg, "a context is used with its own algorithm" );
	CHECK( !c->used, "a context is finalized once" );
	if( FAULT() ) { env_error( error ); return -1; }
	c->used = 1;
	for( i = 0; i < alg_size[ alg ]; i++ ) h[ i ] = digest_of( alg, i );
	digest_made[ alg ] = ( c->off == file_size ) ? 1 : 2;
	return 1;
}
#define ALG( a, A ) \
int libhmac_##a##_context_initialize( libhmac_##a##_context_t **c, libhmac_error_t **e ) { return ctx_initialize( ALG_##A, (ctx_t **) c, (libcerror_error_t **) e ); } \
int libhmac_##a##_context_free( libhmac_##a##_context_t **c, libhmac_error_t **e ) { return ctx_free( (ctx_t **) c, (libcerror_error_t **) e ); } \
int libhmac_##a##_context_update( libhmac_##a##_context_t *c, const uint8_t *b, size_t n, libhmac_error_t **e ) { return ctx_update( ALG_##A, (ctx_t *) c, b, n, (libcerror_error_t **) e ); } \
int libhmac_##a##_context_finalize( libhmac_##a##_context_t *c, uint8_t *h, size_t n, libhmac_error_t **e ) { return ctx_finalize( ALG_##A, (ctx_t *) c, h, n, (libcerror_error_t **) e ); }
ALG( md5, MD5 )
ALG( sha1, SHA1 )
ALG( sha224, SHA224 )
ALG( sha256, SHA256 )
ALG( sha512, SHA512 )

/* streams */
static char stream_out[ 8 ], stream_err[ 8 ];
FILE *t_stdout = (FILE *) stream_out, *t_stderr = (FILE *) stream_err;
static int print_may_fail = 0, out_failed = 0;
static int printed[ 5 ] = { 0, 0, 0, 0, 0 };	/* lines of the digest, as computed */
static int printed_wrong = 0;		/* lines that name an algorithm and carry anything else */
/* a line: its first word, and whether its last word is the digest that the first word names */
static char head[ 8 ];
static unsigned head_n = 0, word_n = 0;
static int head_done = 0, head_alg = -1, word_ok = 1, word_token = 0;
static char hexdigit( unsigned v ) { return (char) ( v < 10 ? '0' + v : 'a' + v - 10 ); }
static int line_alg( void )
{
	unsigned i;
	int a;
	for( a = 0; a < 5; a++ )
	{
		for( i = 0; i < head_n; i++ )
			if( alg_name[ a ][ i ] == 0 || alg_name[ a ][ i ] != head[ i ] ) break;
		if( i == head_n && alg_name[ a ][ i ] == 0 ) return a;
	}
	return -1;
}
static int is_digest( const chr_t *p, int k )
{
	unsigned i;
	for( i = 0; i < alg_size[ k ]; i++ )
		if( p[ 2 * i ] != hexdigit( digest_of( k, i ) >> 4 ) || p[ 2 * i + 1 ] != hexdigit( digest_of( k, i ) & 15 ) ) return 0;
	return p[ 2 * i ] == 0;
}
static void line_end( void )
{
	if( head_alg >= 0 )
	{
		int ok = word_token ? ( word_token == 1 && word_n == 0 ) : ( word_ok && word_n == 2 * alg_size[ head_alg ] );
		if( ok && digest_made[ head_alg ] != 0 ) printed[ head_alg ]++;
		else printed_wrong++;
	}
	head_n = 0;
	head_done = 0;
	head_alg = -1;
	word_n = 0;
	word_ok = 1;
	word_token = 0;
}
static void out_char( char c )
{
	if( c == '\n' ) line_end();
	else if( c == ' ' || c == '\t' || c == ':' )
	{
		if( !head_done && head_n > 0 ) { head_done = 1; head_alg = line_alg(); }
		word_n = 0;
		word_ok = 1;
		word_token = 0;
	}
	else if( !head_done ) { if( head_n < 8 ) head[ head_n++ ] = c; }
	else
	{
		if( head_alg >= 0 && ( word_n >= 2 * alg_size[ head_alg ] || c != hexdigit( ( digest_of( head_alg, word_n / 2 ) >> ( word_n % 2 ? 0 : 4 ) ) & 15 ) ) ) word_ok = 0;
		word_n++;
	}
}
/* a whole string, as one token where it should be a digest */
static void out_string( const chr_t *p )
{
	unsigned j;
	if( head_alg >= 0 ) word_token = ( word_n == 0 && word_token == 0 && is_digest( p, head_alg ) ) ? 1 : 2;
	else for( j = 0; p[ j ] != 0; j++ ) out_char( (char) p[ j ] );
}
static int print_fails( FILE *s )
{
	moment();
	if( !t_fail || !print_may_fail || in_handler || !ndbool() )
		return 0;
	t_failed++;
	if( s == t_stdout )
		out_failed = 1;
	return 1;
}
int t_fprintf( FILE *s, const char *f, ... )
{
	va_list ap;
	unsigned i, n = 0;
	if( print_fails( s ) )
		return -1;
	if( s != t_stdout )
	{
		CHECK( s == t_stderr, "output goes to the standard streams" );
		return 1;
	}
	va_start( ap, f );
	for( i = 0; f[ i ] != 0; i++ )
	{
		if( f[ i ] != '%' ) { out_char( f[ i ] ); n++; continue; }
		i++;
		while( f[ i ] == 'l' ) i++;
		if( f[ i ] == 's' )
		{
			out_string( va_arg( ap, const chr_t * ) );
			n++;
		}
		else if( f[ i ] == 'c' ) { int c = va_arg( ap, int ); out_char( (char) c ); n++; }
		else { (void) va_arg( ap, int ); out_char( '0' ); n++; }
	}
	va_end( ap );
	moment();
	return (int) n;
}
int t_fputs( const char *p, FILE *s )
{
	unsigned j;
	if( print_fails( s ) ) return EOF;
	if( s == t_stdout ) for( j = 0; p[ j ] != 0; j++ ) out_char( p[ j ] );
	return 1;
}
int t_fputc( int c, FILE *s )
{
	if( print_fails( s ) ) return EOF;
	if( s == t_stdout ) out_char( (char) c );
	return (unsigned char) c;
}
int t_ferror( FILE *s ) { return s == t_stdout ? out_failed : 0; }
int t_fflush( FILE *s ) { return s == t_stdout && out_failed ? EOF : 0; }

/* not used here; kept for the linker */
int t_snprintf( void *b, size_t n, const void *f, ... ) { (void) b; (void) n; (void) f; return -1; }

/* the rest */
static int dp = '.';
int libclocale_locale_get_decimal_point( int *decimal_point, libcerror_error_t **error )
{
	if( FAULT() ) { env_error( error ); return -1; }
	*decimal_point = dp;
	return 1;
}
int libclocale_initialize( const char *domain, libcerror_error_t **error )
{
	(void) domain;
	if( FAULT() ) { env_error( error ); return -1; }
	return 1;
}
int libcnotify_printf( const char *f, ... ) { (void) f; return 0; }
int libcnotify_print_error_backtrace( libcerror_error_t *e ) { (void) e; return 0; }
void libcnotify_verbose_set( int v ) { (void) v; }
int libcnotify_stream_set( FILE *s, libcerror_error_t **e ) { (void) s; (void) e; return 1; }
int t_setvbuf( FILE *s, char *b, int m, size_t n )
{
	CHECK( s == t_stdout || s == t_stderr, "a standard stream" );
	(void) b; (void) n;
	if( FAULT() ) return -1;
	return 0;
}
static long closed_stdin = 0;
int t_close( int fd )
{
	CHECK( fd == 0, "only standard input is closed directly" );
	closed_stdin++;
	return 0;
}
typedef void (*sig_t_)( int );
sig_t_ t_signal( int n, sig_t_ h )
{
	/* running without a handler is allowed */
	moment();
	if( t_fail == 1 && !in_handler && ndbool() ) return (sig_t_) -1;
	if( h == (sig_t_) 0 ) { handler_set = 0; handler = NULL; }
	else if( h != (sig_t_) 1 ) { handler_set = 1; handler = h; }
	moment();
	return (sig_t_) 0;
}
#endif
