/* Native replay of a history of updates: the real update/finalize code with the compression function replaced by a
 * recorder (builtin configurations), which checks that every byte of the padded message arrives once, at its place.
 * stdin: number of updates, their sizes, number of witness positions, the positions. */
#include <common.h>
#include <types.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/mman.h>
#include "libhmac_libcerror.h"
#include HDR
#define CAT_( a, b, c ) a##b##c
#define CAT( a, b, c ) CAT_( a, b, c )
#define CTX CAT( libhmac_, ALGO, _context_t )
#define ICTX CAT( libhmac_internal_, ALGO, _context_t )
#define INIT CAT( libhmac_, ALGO, _context_initialize )
#define UPDATE CAT( libhmac_, ALGO, _context_update )
#define FINALIZE CAT( libhmac_, ALGO, _context_finalize )
#define TRANSFORM CAT( libhmac_, ALGO, _context_transform )
#define FREE CAT( libhmac_, ALGO, _context_free )
static uint64_t pos, wit[ 1024 ];
static int nwit, seen[ 1024 ];
static uint8_t got[ 1024 ];

ssize_t TRANSFORM( ICTX *c, const uint8_t *buffer, size_t size, libcerror_error_t **error )
{
	uint64_t n = size - ( size % BLOCK );
	int i;
	(void) c; (void) error;
	for( i = 0; i < nwit; i++ )
		if( wit[ i ] >= pos && wit[ i ] - pos < n )
		{
			seen[ i ]++;
			got[ i ] = buffer[ wit[ i ] - pos ];
		}
	pos += n;
	return (ssize_t) n;
}
static uint64_t padded( uint64_t t ) { return ( ( t + 1 + LENBYTES + BLOCK - 1 ) / BLOCK ) * BLOCK; }
static uint8_t length_byte( uint64_t total, uint64_t k )
{
	uint64_t sig = BIGENDIAN ? LENBYTES - 1 - k : k;
	if( sig >= 8 )
		return (uint8_t) ( sig == 8 ? total >> 61 : 0 );
	return (uint8_t) ( ( total << 3 ) >> ( 8 * sig ) );
}
static uint8_t mark( uint64_t p ) { return (uint8_t) ( ( p * 131 + ( p >> 7 ) * 29 + 1 ) % 251 + 1 ); }

int main( void )
{
	unsigned long long v;
	int n, i, j, r, bad = 0;
	uint64_t size[ 64 ], total = 0, base[ 64 ];
	uint8_t *buf[ 64 ], hash[ HASH ];
	CTX *context = NULL;
	if( scanf( "%d", &n ) != 1 || n > 64 ) return 3;
	for( i = 0; i < n; i++ )
	{
		if( scanf( "%llu", &v ) != 1 ) return 3;
		size[ i ] = v; base[ i ] = total; total += v;
		buf[ i ] = mmap( NULL, v ? v : 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
		if( buf[ i ] == MAP_FAILED ) { printf( "UNREPLAYABLE\n" ); return 4; }
		if( v <= ( 1 << 20 ) )
			for( j = 0; j < (int) v; j++ ) buf[ i ][ j ] = mark( base[ i ] + j );
	}
	if( scanf( "%d", &nwit ) != 1 || nwit > 1024 ) return 3;
	for( i = 0; i < nwit; i++ )
	{
		if( scanf( "%llu", &v ) != 1 ) return 3;
		wit[ i ] = v;
		for( j = 0; j < n; j++ )
			if( v >= base[ j ] && v - base[ j ] < size[ j ] ) buf[ j ][ v - base[ j ] ] = mark( v );
	}
	if( INIT( &context, NULL ) != 1 ) { printf( "FAIL initialize\n" ); bad++; }
	for( i = 0; i < n; i++ )
		if( ( r = UPDATE( context, buf[ i ], size[ i ], NULL ) ) != 1 ) { printf( "FAIL update %d of %llu bytes returned %d\n", i, (unsigned long long) size[ i ], r ); bad++; }
	if( FINALIZE( context, hash, HASH, NULL ) != 1 ) { printf( "FAIL finalize\n" ); bad++; }
	if( pos != padded( total ) ) { printf( "FAIL %llu bytes compressed instead of %llu\n", (unsigned long long) pos, (unsigned long long) padded( total ) ); bad++; }
	for( i = 0; i < nwit; i++ )
	{
		uint8_t want;
		if( wit[ i ] >= padded( total ) ) continue;
		want = wit[ i ] < total ? mark( wit[ i ] ) : wit[ i ] == total ? 0x80 : wit[ i ] < padded( total ) - LENBYTES ? 0 : length_byte( total, wit[ i ] - ( padded( total ) - LENBYTES ) );
		if( seen[ i ] != 1 || got[ i ] != want )
		{
			printf( "FAIL position %llu of the padded message (total %llu): seen %d times, holds %02x instead of %02x\n", (unsigned long long) wit[ i ], (unsigned long long) total, seen[ i ], got[ i ], want );
			bad++;
		}
	}
	FREE( &context, NULL );
	printf( "end %d\n", bad );
	return bad ? 9 : 0;
}
