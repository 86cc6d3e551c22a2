/* The C library functions CBMC has no model of (it would take any result), and those the IR engine lacks. */
#if !defined( VERIF_LIBC_H )
#define VERIF_LIBC_H
#if !defined( REPLAY )
#include <stddef.h>
#include <wchar.h>
void *memchr( const void *s, int c, size_t n )
{
	const unsigned char *p = (const unsigned char *) s;
	size_t i;
	for( i = 0; i < n; i++ )
		if( p[ i ] == (unsigned char) c )
			return (void *) ( p + i );
	return NULL;
}
wchar_t *wmemchr( const wchar_t *s, wchar_t c, size_t n )
{
	size_t i;
	for( i = 0; i < n; i++ )
		if( s[ i ] == c )
			return (wchar_t *) ( s + i );
	return NULL;
}
#endif
#endif
