/* Byte-order conversions and rotations of common/byte_stream.h and libhmac/libhmac_byte_stream.h. */
#include <common.h>
#include <types.h>
#include <byte_stream.h>
#include "libhmac_byte_stream.h"
#include "nd.h"
#define TO( W, N, BE, MACRO ) do { uint8_t b[ N ]; T##W v = (T##W) nd(); uint64_t want = 0; int i; \
	for( i = 0; i < N; i++ ) b[ i ] = nd8(); \
	for( i = 0; i < N; i++ ) want |= (uint64_t) b[ i ] << ( 8 * ( BE ? N - 1 - i : i ) ); \
	MACRO( b, v ); \
	CHECK( (uint64_t) v == want, #MACRO " is the positional value of the bytes" ); \
	{ int k = ndbool(); uint8_t c[ N ]; T##W x[ 2 ]; x[ 0 ] = (T##W) nd(); x[ 1 ] = v; for( i = 0; i < N; i++ ) c[ i ] = nd8(); \
	  for( i = 0, want = 0; i < N; i++ ) want |= (uint64_t) ( k ? b[ i ] : c[ i ] ) << ( 8 * ( BE ? N - 1 - i : i ) ); \
	  MACRO( k ? b : c, *x ); \
	  CHECK( (uint64_t) x[ 0 ] == want && x[ 1 ] == v, #MACRO " takes expressions as its arguments" ); } } while( 0 )
#define FROM( W, N, BE, MACRO ) do { uint8_t b[ N + 2 ], o; T##W v = (T##W) nd(); int i; o = nd8(); \
	for( i = 0; i < N + 2; i++ ) b[ i ] = o; \
	MACRO( &( b[ 1 ] ), v ); \
	for( i = 0; i < N; i++ ) CHECK( b[ 1 + i ] == (uint8_t) ( (uint64_t) v >> ( 8 * ( BE ? N - 1 - i : i ) ) ), #MACRO " writes the bytes of the value" ); \
	CHECK( b[ 0 ] == o && b[ N + 1 ] == o, #MACRO " writes nothing else" ); \
	{ int k = ndbool(); T##W w = (T##W) nd(), u = (T##W) nd(); uint8_t c[ N + 2 ]; uint64_t want = (uint64_t) ( (T##W) ( k ? u : w ) ); \
	  for( i = 0; i < N + 2; i++ ) c[ i ] = o; \
	  MACRO( k ? b + 1 : c + 1, k ? u : w ); \
	  for( i = 0; i < N; i++ ) CHECK( ( k ? b : c )[ 1 + i ] == (uint8_t) ( want >> ( 8 * ( BE ? N - 1 - i : i ) ) ), #MACRO " takes expressions as its arguments" ); \
	  CHECK( b[ 0 ] == o && b[ N + 1 ] == o && c[ 0 ] == o && c[ N + 1 ] == o, #MACRO " writes nothing else" ); } } while( 0 )
typedef uint16_t T16; typedef uint32_t T24; typedef uint32_t T32; typedef uint64_t T48; typedef uint64_t T64;
#define ROT( W, T, L, MACRO ) do { T v = (T) nd(), r; int n = (int) ndrange( 1, W - 1 ), i = (int) ndrange( 0, W - 1 ); \
	r = (T) MACRO( v, n ); \
	CHECK( ( ( r >> ( L ? ( i + n ) % W : ( i + W - n ) % W ) ) & 1 ) == ( ( v >> i ) & 1 ), #MACRO " moves every bit by the distance" ); \
	/* an expression of a narrow type has the width of int: the macros that derive the width from the value are left out there */ \
	if( sizeof( T ) >= sizeof( int ) || sizeof( #MACRO ) > sizeof( "byte_stream_bit_rotate_right" ) ) { int k = ndbool(), lo = (int) ndrange( 0, 7 ); T w = (T) nd(), u = (T) nd(), x = (T) ( k ? u : w ); int a = n + lo; \
	  r = (T) MACRO( k ? u : w, a - lo ); \
	  CHECK( ( ( r >> ( L ? ( i + n ) % W : ( i + W - n ) % W ) ) & 1 ) == ( ( x >> i ) & 1 ), #MACRO " takes expressions as its arguments" ); \
	  r = (T) MACRO( x, k ? n : n ); \
	  CHECK( ( ( r >> ( L ? ( i + n ) % W : ( i + W - n ) % W ) ) & 1 ) == ( ( x >> i ) & 1 ), #MACRO " takes expressions as its arguments" ); } } while( 0 )

void harness( void )
{
#if defined( PART_TO )
	TO( 16, 2, 1, byte_stream_copy_to_uint16_big_endian ); TO( 16, 2, 0, byte_stream_copy_to_uint16_little_endian );
	TO( 24, 3, 1, byte_stream_copy_to_uint24_big_endian ); TO( 24, 3, 0, byte_stream_copy_to_uint24_little_endian );
	TO( 32, 4, 1, byte_stream_copy_to_uint32_big_endian ); TO( 32, 4, 0, byte_stream_copy_to_uint32_little_endian );
	TO( 48, 6, 1, byte_stream_copy_to_uint48_big_endian ); TO( 48, 6, 0, byte_stream_copy_to_uint48_little_endian );
	TO( 64, 8, 1, byte_stream_copy_to_uint64_big_endian ); TO( 64, 8, 0, byte_stream_copy_to_uint64_little_endian );
#endif
#if defined( PART_FROM )
	FROM( 16, 2, 1, byte_stream_copy_from_uint16_big_endian ); FROM( 16, 2, 0, byte_stream_copy_from_uint16_little_endian );
	FROM( 24, 3, 1, byte_stream_copy_from_uint24_big_endian ); FROM( 24, 3, 0, byte_stream_copy_from_uint24_little_endian );
	FROM( 32, 4, 1, byte_stream_copy_from_uint32_big_endian ); FROM( 32, 4, 0, byte_stream_copy_from_uint32_little_endian );
	FROM( 48, 6, 1, byte_stream_copy_from_uint48_big_endian ); FROM( 48, 6, 0, byte_stream_copy_from_uint48_little_endian );
	FROM( 64, 8, 1, byte_stream_copy_from_uint64_big_endian ); FROM( 64, 8, 0, byte_stream_copy_from_uint64_little_endian );
#endif
#if defined( PART_ROT )
	ROT( 8, uint8_t, 1, byte_stream_bit_rotate_left_8bit ); ROT( 8, uint8_t, 0, byte_stream_bit_rotate_right_8bit );
	ROT( 16, uint16_t, 1, byte_stream_bit_rotate_left_16bit ); ROT( 16, uint16_t, 0, byte_stream_bit_rotate_right_16bit );
	ROT( 32, uint32_t, 1, byte_stream_bit_rotate_left_32bit ); ROT( 32, uint32_t, 0, byte_stream_bit_rotate_right_32bit );
	ROT( 64, uint64_t, 1, byte_stream_bit_rotate_left_64bit ); ROT( 64, uint64_t, 0, byte_stream_bit_rotate_right_64bit );
	ROT( 8, uint8_t, 1, byte_stream_bit_rotate_left ); ROT( 8, uint8_t, 0, byte_stream_bit_rotate_right );
	ROT( 16, uint16_t, 1, byte_stream_bit_rotate_left ); ROT( 16, uint16_t, 0, byte_stream_bit_rotate_right );
	ROT( 32, uint32_t, 1, byte_stream_bit_rotate_left ); ROT( 32, uint32_t, 0, byte_stream_bit_rotate_right );
	ROT( 64, uint64_t, 1, byte_stream_bit_rotate_left ); ROT( 64, uint64_t, 0, byte_stream_bit_rotate_right );
#endif
#if defined( PART_BULK )
	/* both the bulk form and the form with an index: value j comes from bytes j*W and on; nothing else is written */
#define ALL( W, T, BE, MACRO ) do { uint8_t b[ 16 * W ]; T v[ 16 ]; int i, j = (int) ndrange( 0, 15 ); uint64_t want = 0; \
	for( i = 0; i < 16; i++ ) v[ i ] = (T) nd(); \
	for( i = 0; i < 16 * W; i++ ) b[ i ] = nd8(); \
	for( i = 0; i < W; i++ ) want |= (uint64_t) b[ j * W + i ] << ( 8 * ( BE ? W - 1 - i : i ) ); \
	MACRO( b, v ); \
	CHECK( (uint64_t) v[ j ] == want, #MACRO " is the positional value of the bytes" ); } while( 0 )
#define IDX( W, T, BE, MACRO ) do { uint8_t b[ 16 * W ]; T v[ 16 ], old; int i, j = (int) ndrange( 0, 15 ), o = (int) ndrange( 0, 15 ); uint64_t want = 0; \
	for( i = 0; i < 16; i++ ) v[ i ] = (T) nd(); \
	for( i = 0; i < 16 * W; i++ ) b[ i ] = nd8(); \
	for( i = 0; i < W; i++ ) want |= (uint64_t) b[ j * W + i ] << ( 8 * ( BE ? W - 1 - i : i ) ); \
	old = v[ o ]; \
	MACRO( b, v, j ); \
	CHECK( (uint64_t) v[ j ] == want, #MACRO " is the positional value of the bytes" ); \
	CHECK( o == j || v[ o ] == old, #MACRO " writes nothing else" ); } while( 0 )
	IDX( 4, uint32_t, 1, libhmac_byte_stream_copy_to_1x_uint32_big_endian ); IDX( 4, uint32_t, 0, libhmac_byte_stream_copy_to_1x_uint32_little_endian );
	IDX( 8, uint64_t, 1, libhmac_byte_stream_copy_to_1x_uint64_big_endian ); IDX( 8, uint64_t, 0, libhmac_byte_stream_copy_to_1x_uint64_little_endian );
	ALL( 4, uint32_t, 1, libhmac_byte_stream_copy_to_16x_uint32_big_endian ); ALL( 4, uint32_t, 0, libhmac_byte_stream_copy_to_16x_uint32_little_endian );
	ALL( 8, uint64_t, 1, libhmac_byte_stream_copy_to_16x_uint64_big_endian ); ALL( 8, uint64_t, 0, libhmac_byte_stream_copy_to_16x_uint64_little_endian );
#endif
	REACHED();
}
