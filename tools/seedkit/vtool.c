/* Small stand-ins for the libraries the tool uses, over a file in memory, with a failure at a chosen call. Included by demo.c. */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdarg.h>
#include "libcerror.h"
#include "libcfile.h"
#include "libcsplit.h"
#include "libclocale.h"
#include "libcnotify.h"
static const uint8_t *v_data = (const uint8_t *) "";
static size_t v_size = 0, v_offset = 0, v_most = (size_t) -1;
static int v_files = 0, v_splits = 0, v_calls = 0, v_fail = -1, v_reads = 0;
static void (*v_hook)( int ) = NULL;
static char v_token[ 4 ];
static int v_try( libcerror_error_t **error ) { if( v_calls++ == v_fail ) { if( error && *error == NULL ) *error = (libcerror_error_t *) v_token; return( 0 ); } return( 1 ); }
int libcfile_file_initialize( libcfile_file_t **f, libcerror_error_t **error ) { if( !v_try( error ) ) return( -1 ); *f = calloc( 1, 8 ); v_files++; return( 1 ); }
int libcfile_file_free( libcfile_file_t **f, libcerror_error_t **error ) { if( *f ) { free( *f ); *f = NULL; v_files--; } return( v_try( error ) ? 1 : -1 ); }
int libcfile_file_open( libcfile_file_t *f, const char *n, int a, libcerror_error_t **error ) { return( v_try( error ) ? 1 : -1 ); }
int libcfile_file_open_wide( libcfile_file_t *f, const wchar_t *n, int a, libcerror_error_t **error ) { return( v_try( error ) ? 1 : -1 ); }
int libcfile_file_close( libcfile_file_t *f, libcerror_error_t **error ) { return( v_try( error ) ? 0 : -1 ); }
int libcfile_file_get_size( libcfile_file_t *f, uint64_t *s, libcerror_error_t **error ) { if( !v_try( error ) ) return( -1 ); *s = v_size; return( 1 ); }
ssize_t libcfile_file_read_buffer( libcfile_file_t *f, uint8_t *b, size_t n, libcerror_error_t **error )
{
	if( !v_try( error ) ) return( -1 );
	if( v_hook ) v_hook( v_reads );
	v_reads++;
	if( n > v_size - v_offset ) n = v_size - v_offset;
	if( n > v_most ) n = v_most;
	memcpy( b, v_data + v_offset, n );
	v_offset += n;
	return( (ssize_t) n );
}
typedef struct { char *text; char *part[ 64 ]; size_t size[ 64 ]; int n; } v_split_t;
int libcsplit_narrow_string_split( const char *s, size_t size, char d, libcsplit_narrow_split_string_t **out, libcerror_error_t **error )
{
	v_split_t *p;
	char *c;
	if( !v_try( error ) ) return( -1 );
	p = calloc( 1, sizeof( *p ) );
	p->text = strdup( s );
	v_splits++;
	for( c = p->text; ; )
	{
		char *e = strchr( c, d );
		p->part[ p->n ] = c;
		if( e ) *e = 0;
		p->size[ p->n++ ] = strlen( c ) + 1;
		if( !e || p->n == 64 ) break;
		c = e + 1;
	}
	*out = (libcsplit_narrow_split_string_t *) p;
	return( 1 );
}
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **s, libcerror_error_t **error ) { v_split_t *p = (v_split_t *) *s; if( p ) { free( p->text ); free( p ); v_splits--; *s = NULL; } return( v_try( error ) ? 1 : -1 ); }
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *s, int *n, libcerror_error_t **error ) { if( !v_try( error ) ) return( -1 ); *n = ( (v_split_t *) s )->n; return( 1 ); }
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *s, int i, char **t, size_t *z, libcerror_error_t **error ) { v_split_t *p = (v_split_t *) s; if( !v_try( error ) ) return( -1 ); *t = p->part[ i ]; *z = p->size[ i ]; return( 1 ); }
int libclocale_initialize( const char *d, libcerror_error_t **error ) { return( 1 ); }
int libclocale_locale_get_decimal_point( int *d, libcerror_error_t **error ) { *d = '.'; return( 1 ); }
int libclocale_locale_get_codepage( int *c, libcerror_error_t **error ) { *c = 0; return( 1 ); }
void libcnotify_verbose_set( int v ) { }
int libcnotify_stream_set( FILE *s, libcerror_error_t **error ) { return( 1 ); }
int libcnotify_printf( const char *f, ... ) { return( 0 ); }
int libcnotify_print_error_backtrace( libcerror_error_t *e ) { return( 0 ); }
