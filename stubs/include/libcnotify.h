/* Stand-in for libcnotify's public header. */
#if !defined( _LIBCNOTIFY_H )
#define _LIBCNOTIFY_H
#include <stdio.h>
#include "libcerror.h"
void libcnotify_verbose_set( int verbose );
int libcnotify_stream_set( FILE *stream, libcerror_error_t **error );
int libcnotify_printf( const char *format, ... );
int libcnotify_print_error_backtrace( libcerror_error_t *error );
int libcnotify_print_data( const uint8_t *data, size_t data_size, uint8_t print_data_flags );
#endif
