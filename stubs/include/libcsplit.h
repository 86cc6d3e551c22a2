/* Stand-in for libcsplit's public header. */
#if !defined( _LIBCSPLIT_H )
#define _LIBCSPLIT_H
#include <wchar.h>
#include "libcerror.h"
typedef intptr_t libcsplit_narrow_split_string_t;
typedef intptr_t libcsplit_wide_split_string_t;
int libcsplit_narrow_string_split( const char *string, size_t string_size, char delimiter, libcsplit_narrow_split_string_t **split_string, libcerror_error_t **error );
int libcsplit_narrow_split_string_free( libcsplit_narrow_split_string_t **split_string, libcerror_error_t **error );
int libcsplit_narrow_split_string_get_number_of_segments( libcsplit_narrow_split_string_t *split_string, int *number_of_segments, libcerror_error_t **error );
int libcsplit_narrow_split_string_get_segment_by_index( libcsplit_narrow_split_string_t *split_string, int segment_index, char **string_segment, size_t *string_segment_size, libcerror_error_t **error );
int libcsplit_wide_string_split( const wchar_t *string, size_t string_size, wchar_t delimiter, libcsplit_wide_split_string_t **split_string, libcerror_error_t **error );
int libcsplit_wide_split_string_free( libcsplit_wide_split_string_t **split_string, libcerror_error_t **error );
int libcsplit_wide_split_string_get_number_of_segments( libcsplit_wide_split_string_t *split_string, int *number_of_segments, libcerror_error_t **error );
int libcsplit_wide_split_string_get_segment_by_index( libcsplit_wide_split_string_t *split_string, int segment_index, wchar_t **string_segment, size_t *string_segment_size, libcerror_error_t **error );
#endif
