/* A small libcerror for demonstrations: an error is a flag. */
#include <stdlib.h>
#include "libcerror.h"
static char token[ 8 ];
void libcerror_error_set( libcerror_error_t **error, int d, int c, const char *f, ... ) { if( error && *error == NULL ) *error = (libcerror_error_t *) token; }
void libcerror_system_set_error( libcerror_error_t **error, int d, int c, uint32_t s, const char *f, ... ) { if( error && *error == NULL ) *error = (libcerror_error_t *) token; }
void libcerror_error_free( libcerror_error_t **error ) { if( error ) *error = NULL; }
int libcerror_error_matches( libcerror_error_t *error, int d, int c ) { return error != NULL; }
int libcerror_error_fprint( libcerror_error_t *error, FILE *s ) { return 0; }
int libcerror_error_sprint( libcerror_error_t *error, char *s, size_t n ) { if( n ) s[ 0 ] = 0; return 0; }
int libcerror_error_backtrace_fprint( libcerror_error_t *error, FILE *s ) { return 0; }
int libcerror_error_backtrace_sprint( libcerror_error_t *error, char *s, size_t n ) { if( n ) s[ 0 ] = 0; return 0; }
