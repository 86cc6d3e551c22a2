#if defined( STATIC_GUARD )
#define _GNU_SOURCE
#endif
/* Executes a scenario against the natively built real code and prints what is observable.
 * Linked with -Wl,--wrap=... so that allocations and OpenSSL calls can be counted, failed and inspected. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "libcerror.h"
#if defined( STATIC_GUARD )
/* The library is a shared object of its own whose writable pages are made read-only while its functions run. */
#include <link.h>
#include <dlfcn.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#define __real_malloc malloc
#define __real_calloc calloc
#define __real_free free
static int guard_prot;
static int guard_each( struct dl_phdr_info *i, size_t z, void *d )
{
	int k;
	if( !i->dlpi_name || !strstr( i->dlpi_name, "libguarded.so" ) ) return 0;
	for( k = 0; k < i->dlpi_phnum; k++ )
		if( i->dlpi_phdr[ k ].p_type == PT_LOAD && ( i->dlpi_phdr[ k ].p_flags & PF_W ) )
		{
			uintptr_t lo = i->dlpi_addr + i->dlpi_phdr[ k ].p_vaddr, hi = lo + i->dlpi_phdr[ k ].p_memsz;
			lo &= ~(uintptr_t) 4095; hi = ( hi + 4095 ) & ~(uintptr_t) 4095;
			if( mprotect( (void *) lo, hi - lo, guard_prot ) != 0 ) _exit( 3 );
		}
	return 0;
}
static void guard( int prot ) { guard_prot = prot; dl_iterate_phdr( guard_each, NULL ); }
static void guard_hit( int s, siginfo_t *i, void *c )
{
	Dl_info in;
	if( dladdr( i->si_addr, &in ) && in.dli_fname && strstr( in.dli_fname, "libguarded.so" ) )
		dprintf( 1, "static-write %s+%ld\n", in.dli_sname ? in.dli_sname : "data", (long) ( (char *) i->si_addr - (char *) ( in.dli_sname ? in.dli_saddr : in.dli_fbase ) ) );
	_exit( 98 );
}
#endif

typedef intptr_t ctx_t;
#define A(a) \
int libhmac_##a##_initialize( ctx_t **, libcerror_error_t ** ); int libhmac_##a##_context_initialize( ctx_t **, libcerror_error_t ** ); \
int libhmac_##a##_free( ctx_t **, libcerror_error_t ** ); int libhmac_##a##_context_free( ctx_t **, libcerror_error_t ** ); \
int libhmac_##a##_update( ctx_t *, const uint8_t *, size_t, libcerror_error_t ** ); int libhmac_##a##_context_update( ctx_t *, const uint8_t *, size_t, libcerror_error_t ** ); \
int libhmac_##a##_finalize( ctx_t *, uint8_t *, size_t, libcerror_error_t ** ); int libhmac_##a##_context_finalize( ctx_t *, uint8_t *, size_t, libcerror_error_t ** ); \
int libhmac_##a##_calculate( const uint8_t *, size_t, uint8_t *, size_t, libcerror_error_t ** ); \
int libhmac_##a##_calculate_hmac( const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, libcerror_error_t ** );
A( md5 ) A( sha1 ) A( sha224 ) A( sha256 ) A( sha512 )
#undef A
struct algo {
	const char *n;
	int (*init[ 2 ])( ctx_t **, libcerror_error_t ** ); int (*fre[ 2 ])( ctx_t **, libcerror_error_t ** );
	int (*upd[ 2 ])( ctx_t *, const uint8_t *, size_t, libcerror_error_t ** ); int (*fin[ 2 ])( ctx_t *, uint8_t *, size_t, libcerror_error_t ** );
	int (*calc)( const uint8_t *, size_t, uint8_t *, size_t, libcerror_error_t ** );
	int (*hmac)( const uint8_t *, size_t, const uint8_t *, size_t, uint8_t *, size_t, libcerror_error_t ** );
};
#define A(a) { #a, { libhmac_##a##_initialize, libhmac_##a##_context_initialize }, { libhmac_##a##_free, libhmac_##a##_context_free }, \
 { libhmac_##a##_update, libhmac_##a##_context_update }, { libhmac_##a##_finalize, libhmac_##a##_context_finalize }, libhmac_##a##_calculate, libhmac_##a##_calculate_hmac },
static struct algo algos[] = { A( md5 ) A( sha1 ) A( sha224 ) A( sha256 ) A( sha512 ) { 0 } };

/* faults: per function name, which calls fail */
static struct { char name[ 40 ]; long count; long fail[ 16 ]; int n; } fl[ 32 ];
static int nfl = 0;
static int ok( const char *name )
{
	int i, k;
	for( i = 0; i < nfl; i++ )
		if( strcmp( fl[ i ].name, name ) == 0 )
		{
			long c = fl[ i ].count++;
			for( k = 0; k < fl[ i ].n; k++ )
				if( fl[ i ].fail[ k ] == c )
					return 0;
		}
	return 1;
}
static int inlib = 0, trace_free = 0, npoison = 0;
static struct { void *p; size_t n; int live; } blocks[ 4096 ];
static int nb = 0;
static void note( void *p, size_t n ) { if( p && nb < 4096 ) { blocks[ nb ].p = p; blocks[ nb ].n = n; blocks[ nb ].live = 1; nb++; } }
void *__real_malloc( size_t ); void *__real_calloc( size_t, size_t ); void __real_free( void * );
void *__wrap_malloc( size_t n ) { void *p; if( !inlib ) return __real_malloc( n ); if( !ok( "malloc" ) ) return NULL; p = __real_malloc( n ); if( p ) memset( p, 0xdd, n ); note( p, n ); return p; }
void *__wrap_calloc( size_t m, size_t n ) { void *p; if( !inlib ) return __real_calloc( m, n ); if( !ok( "malloc" ) ) return NULL; p = __real_calloc( m, n ); note( p, m * n ); return p; }
void __wrap_free( void *p )
{
	int i;
	size_t k;
	if( p != NULL && inlib )
		for( i = nb - 1; i >= 0; i-- )
			if( blocks[ i ].p == p && blocks[ i ].live )
			{
				if( trace_free )
				{
					printf( "freed %d ", i );
					for( k = 0; k < blocks[ i ].n; k++ ) printf( "%02x", ( (unsigned char *) p )[ k ] );
					printf( "\n" );
				}
				blocks[ i ].live = 0;
				break;
			}
	__real_free( p );
}
#define W( ret, name, sig, call, bad ) ret __real_##name sig; ret __wrap_##name sig { if( inlib && !ok( TAG ) ) return bad; return __real_##name call; }
#if defined( WITH_EVP )
static long live_md = 0;
#define TAG "EVP_MD_CTX_new"
void *__real_EVP_MD_CTX_new( void ); void *__wrap_EVP_MD_CTX_new( void ) { void *p; if( !ok( TAG ) ) return NULL; p = __real_EVP_MD_CTX_new(); if( p ) live_md++; return p; }
void __real_EVP_MD_CTX_free( void * ); void __wrap_EVP_MD_CTX_free( void *p ) { if( p ) live_md--; __real_EVP_MD_CTX_free( p ); }
#undef TAG
#define TAG "EVP_DigestInit"
W( int, EVP_DigestInit_ex2, ( void *c, const void *t, const void *p ), ( c, t, p ), 0 )
W( int, EVP_DigestInit_ex, ( void *c, const void *t, void *p ), ( c, t, p ), 0 )
#undef TAG
#define TAG "EVP_DigestUpdate"
W( int, EVP_DigestUpdate, ( void *c, const void *t, size_t n ), ( c, t, n ), 0 )
#undef TAG
#define TAG "EVP_DigestFinal"
W( int, EVP_DigestFinal_ex, ( void *c, unsigned char *t, unsigned int *n ), ( c, t, n ), 0 )
#endif
#if defined( WITH_LEGACY )
#define L( nm ) \
W( int, nm##_Final, ( unsigned char *t, void *c ), ( t, c ), 0 )
#define TAG "Init"
W( int, MD5_Init, ( void *c ), ( c ), 0 ) W( int, SHA1_Init, ( void *c ), ( c ), 0 ) W( int, SHA224_Init, ( void *c ), ( c ), 0 ) W( int, SHA256_Init, ( void *c ), ( c ), 0 ) W( int, SHA512_Init, ( void *c ), ( c ), 0 )
#undef TAG
#define TAG "Final"
L( MD5 ) L( SHA1 ) L( SHA224 ) L( SHA256 ) L( SHA512 )
#undef TAG
#define TAG "Update"
W( int, MD5_Update, ( void *c, const void *t, size_t n ), ( c, t, n ), 0 ) W( int, SHA1_Update, ( void *c, const void *t, size_t n ), ( c, t, n ), 0 ) W( int, SHA224_Update, ( void *c, const void *t, size_t n ), ( c, t, n ), 0 )
W( int, SHA256_Update, ( void *c, const void *t, size_t n ), ( c, t, n ), 0 ) W( int, SHA512_Update, ( void *c, const void *t, size_t n ), ( c, t, n ), 0 )
#endif

static struct { char name[ 40 ]; unsigned char *p; size_t n; } bufs[ 256 ];
static int nbufs = 0;
static unsigned char *buf( const char *name )
{
	char nm[ 64 ];
	long off = 0;
	int i;
	if( strcmp( name, "NULL" ) == 0 )
		return NULL;
	strncpy( nm, name, 63 );
	nm[ 63 ] = 0;
	if( strchr( nm, '+' ) ) { off = atol( strchr( nm, '+' ) + 1 ); *strchr( nm, '+' ) = 0; }
	for( i = 0; i < nbufs; i++ )
		if( strcmp( bufs[ i ].name, nm ) == 0 )
			return bufs[ i ].p + off;
	fprintf( stderr, "no buffer %s\n", nm );
	exit( 3 );
}
static struct algo *algo( const char *n ) { struct algo *a; for( a = algos; a->n; a++ ) if( strcmp( a->n, n ) == 0 ) return a; exit( 3 ); }
int main( void )
{
	static char line[ 1 << 22 ], *w[ 16 ];
	ctx_t *slot[ 16 ] = { 0 };
	int op = 0, i, r;
	size_t k;
#if defined( STATIC_GUARD )
	struct sigaction sa;
	memset( &sa, 0, sizeof( sa ) ); sa.sa_sigaction = guard_hit; sa.sa_flags = SA_SIGINFO; sigaction( SIGSEGV, &sa, NULL );
#endif
	setvbuf( stdout, NULL, _IONBF, 0 );
	while( fgets( line, sizeof( line ), stdin ) )
	{
		libcerror_error_t *e = NULL;
		int n = 0, api, s;
		char *t;
		for( t = strtok( line, " \n" ); t && n < 16; t = strtok( NULL, " \n" ) ) w[ n++ ] = t;
		if( n == 0 ) continue;
		if( strcmp( w[ 0 ], "buf" ) == 0 )
		{
			size_t len = n > 2 ? strlen( w[ 2 ] ) / 2 : 0;
			unsigned char *p = __real_malloc( len );
			for( k = 0; k < len; k++ ) { unsigned v; sscanf( w[ 2 ] + 2 * k, "%2x", &v ); p[ k ] = v; }
			strcpy( bufs[ nbufs ].name, w[ 1 ] ); bufs[ nbufs ].p = p; bufs[ nbufs ].n = len; nbufs++;
			continue;
		}
		if( strcmp( w[ 0 ], "fail" ) == 0 )
		{
			strcpy( fl[ nfl ].name, w[ 1 ] );
			for( i = 2; i < n; i++ ) fl[ nfl ].fail[ fl[ nfl ].n++ ] = atol( w[ i ] );
			nfl++;
			continue;
		}
		if( strcmp( w[ 0 ], "tracefree" ) == 0 ) { trace_free = 1; continue; }
		inlib = 1;
		r = -99;
#if defined( STATIC_GUARD )
		guard( PROT_READ );
#endif
		if( strcmp( w[ 0 ], "init" ) == 0 ) { struct algo *a = algo( w[ 2 ] ); s = atoi( w[ 1 ] ); api = atoi( w[ 3 ] ); r = a->init[ api ]( s < 0 ? NULL : &slot[ s ], &e ); }
		else if( strcmp( w[ 0 ], "free" ) == 0 ) { struct algo *a = algo( w[ 2 ] ); s = atoi( w[ 1 ] ); api = atoi( w[ 3 ] ); r = a->fre[ api ]( s < 0 ? NULL : &slot[ s ], &e ); }
		else if( strcmp( w[ 0 ], "upd" ) == 0 ) { struct algo *a = algo( w[ 2 ] ); s = atoi( w[ 1 ] ); api = atoi( w[ 3 ] ); r = a->upd[ api ]( s < 0 ? NULL : slot[ s ], buf( w[ 4 ] ), strtoull( w[ 5 ], NULL, 10 ), &e ); }
		else if( strcmp( w[ 0 ], "fin" ) == 0 ) { struct algo *a = algo( w[ 2 ] ); s = atoi( w[ 1 ] ); api = atoi( w[ 3 ] ); r = a->fin[ api ]( s < 0 ? NULL : slot[ s ], buf( w[ 4 ] ), strtoull( w[ 5 ], NULL, 10 ), &e ); s = -1; }
		else if( strcmp( w[ 0 ], "calc" ) == 0 ) { struct algo *a = algo( w[ 1 ] ); s = -1; r = a->calc( buf( w[ 2 ] ), strtoull( w[ 3 ], NULL, 10 ), buf( w[ 4 ] ), strtoull( w[ 5 ], NULL, 10 ), &e ); }
		else if( strcmp( w[ 0 ], "hmac" ) == 0 ) { struct algo *a = algo( w[ 1 ] ); s = -1; r = a->hmac( buf( w[ 2 ] ), strtoull( w[ 3 ], NULL, 10 ), buf( w[ 4 ] ), strtoull( w[ 5 ], NULL, 10 ), buf( w[ 6 ] ), strtoull( w[ 7 ], NULL, 10 ), &e ); }
		else exit( 3 );
		inlib = 0;
#if defined( STATIC_GUARD )
		guard( PROT_READ | PROT_WRITE );
#endif
		printf( "op %d %d %d %d\n", op++, r, e != NULL, s < 0 ? -1 : slot[ s ] == NULL );
		if( strcmp( w[ 0 ], "fin" ) == 0 && trace_free && r == 1 && atoi( w[ 1 ] ) >= 0 )
		{
			for( i = nb - 1; i >= 0; i-- )
				if( blocks[ i ].live && blocks[ i ].p == (void *) slot[ atoi( w[ 1 ] ) ] )
				{
					printf( "context " );
					for( k = 0; k < blocks[ i ].n; k++ ) printf( "%02x", ( (unsigned char *) blocks[ i ].p )[ k ] );
					printf( "\n" );
				}
		}
		libcerror_error_free( &e );
	}
	for( i = 0; i < nbufs; i++ )
	{
		printf( "buf %s ", bufs[ i ].name );
		for( k = 0; k < bufs[ i ].n; k++ ) printf( "%02x", bufs[ i ].p[ k ] );
		printf( "\n" );
	}
	{ int live = 0; for( i = 0; i < nb; i++ ) live += blocks[ i ].live; 
#if defined( WITH_EVP )
	live += live_md;
#endif
	printf( "live %d\n", live ); }
	printf( "end\n" );
	return 0;
}
