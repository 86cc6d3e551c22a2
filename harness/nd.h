/* Nondeterministic inputs: symbolic under CBMC, read from stdin in a native replay of a counterexample. */
#if !defined( VERIF_ND_H )
#define VERIF_ND_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#if defined( REPLAY )
#include <stdio.h>
#include <sys/mman.h>
#include <unistd.h>
static inline uint64_t nd( void ) { unsigned long long v = 0; char b[ 64 ]; if( !fgets( b, sizeof b, stdin ) ) return 0; v = strtoull( b, NULL, 10 ); return v; }
static inline void assume_at( int c, const char *w ) { if( !c ) { dprintf( 1, "REPLAY-ASSUME %s\n", w ); _exit( 0 ); } }
static inline void check_at( int c, const char *w ) { if( !c ) { dprintf( 1, "REPLAY-FAILED %s\n", w ); _exit( 9 ); } }
#define ASSUME( c ) assume_at( !!( c ), #c )
#define CHECK( c, m ) check_at( !!( c ), m )
#define REACHED() ( (void) 0 )
#define R_OK( p, n ) 1
static inline void *big_alloc( uint64_t n )
{
	void *p;
	if( n <= ( 1 << 20 ) )
		return malloc( n );
	if( n > ( (uint64_t) 1 << 45 ) ) { dprintf( 1, "REPLAY-ASSUME allocation\n" ); _exit( 0 ); }
	p = mmap( NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
	if( p == MAP_FAILED ) { dprintf( 1, "REPLAY-ASSUME allocation\n" ); _exit( 0 ); }
	return p;
}
#if !defined( ND_NO_MAIN )
void harness( void );
#undef main
int main( void ) { harness(); dprintf( 1, "REPLAY-END\n" ); return 0; }
#endif
#elif defined( VERIF_IR )
uint64_t verif_nd( void );
void verif_assume( int c );
void verif_check( int c, const char *w );
void verif_reached( void );
void *verif_alloc( uint64_t n );
static inline uint64_t nd( void ) { return verif_nd(); }
#define ASSUME( c ) verif_assume( !!( c ) )
#define CHECK( c, m ) verif_check( !!( c ), m )
#define REACHED() verif_reached()
#define R_OK( p, n ) 1
static inline void *big_alloc( uint64_t n ) { return verif_alloc( n ); }
#else
uint64_t nondet_verif_u64( void );
static inline uint64_t nd( void ) { uint64_t nd_value = nondet_verif_u64(); __CPROVER_input( "nd", nd_value ); return nd_value; }
#define ASSUME( c ) __CPROVER_assume( c )
#define CHECK( c, m ) __CPROVER_assert( c, m )
#define REACHED() __CPROVER_assert( 0, "VACUITY: end reached" )
#define R_OK( p, n ) __CPROVER_r_ok( p, n )
void *__CPROVER_allocate( __CPROVER_size_t, __CPROVER_bool );
static inline void *big_alloc( uint64_t n ) { return __CPROVER_allocate( n, 0 ); }
#endif
static inline uint8_t nd8( void ) { uint64_t v = nd(); ASSUME( v <= 255 ); return (uint8_t) v; }
static inline int ndbool( void ) { uint64_t v = nd(); ASSUME( v <= 1 ); return (int) v; }
static inline uint64_t ndrange( uint64_t lo, uint64_t hi ) { uint64_t v = nd(); ASSUME( v >= lo && v <= hi ); return v; }
#endif
