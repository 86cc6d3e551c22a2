/* Stand-in libcerror for replays of the real code. */
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdio.h>
#include "libcerror.h"

struct err { int domain; int code; int depth; char text[ 256 ]; };
long libcerror_stub_live = 0;

void libcerror_error_free( libcerror_error_t **error )
{
	if( error == NULL || *error == NULL )
		return;
	free( (void *) *error );
	*error = NULL;
	libcerror_stub_live--;
}
static void vset( libcerror_error_t **error, int d, int c, const char *f, va_list ap )
{
	struct err *e;
	if( error == NULL )
		return;
	if( *error == NULL )
	{
		e = calloc( 1, sizeof( struct err ) );
		if( e == NULL )
			return;
		e->domain = d;
		e->code = c;
		*error = (libcerror_error_t *) e;
		libcerror_stub_live++;
	}
	e = (struct err *) *error;
	e->depth++;
	vsnprintf( e->text, sizeof( e->text ), f, ap );
}
void libcerror_error_set( libcerror_error_t **error, int d, int c, const char *f, ... )
{
	va_list ap;
	va_start( ap, f );
	vset( error, d, c, f, ap );
	va_end( ap );
}
void libcerror_system_set_error( libcerror_error_t **error, int d, int c, uint32_t s, const char *f, ... )
{
	va_list ap;
	va_start( ap, f );
	vset( error, d, c, f, ap );
	va_end( ap );
}
int libcerror_error_matches( libcerror_error_t *error, int d, int c )
{
	struct err *e = (struct err *) error;
	return( e != NULL && e->domain == d && e->code == c );
}
int libcerror_error_fprint( libcerror_error_t *error, FILE *stream )
{
	if( error == NULL || stream == NULL )
		return( -1 );
	return( fprintf( stream, "%s\n", ( (struct err *) error )->text ) );
}
int libcerror_error_backtrace_fprint( libcerror_error_t *error, FILE *stream )
{
	return( libcerror_error_fprint( error, stream ) );
}
int libcerror_error_sprint( libcerror_error_t *error, char *string, size_t size )
{
	int n;
	if( error == NULL || string == NULL )
		return( -1 );
	n = snprintf( string, size, "%s", ( (struct err *) error )->text );
	return( n < 0 || (size_t) n >= size ? -1 : n + 1 );
}
int libcerror_error_backtrace_sprint( libcerror_error_t *error, char *string, size_t size )
{
	return( libcerror_error_sprint( error, string, size ) );
}
