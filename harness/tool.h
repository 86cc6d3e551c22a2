/* Frame of the tool harnesses: the environment of the real tool sources, with inputs and failures drawn from nd().
 * The real sources are compiled with -Dmalloc=t_malloc -Dfree=t_free so that allocations can fail and are counted. */
#if !defined( VERIF_TOOL_H )
#define VERIF_TOOL_H
#include <common.h>
#include <types.h>
#undef malloc
#undef free
#undef realloc
#undef calloc
#include <stdarg.h>
#include "libcerror.h"
#include "nd.h"

/* memory */
#if defined( VERIF_MOMENTS )
static void moment( void );
#define MOMENT() moment()
#else
#define MOMENT() ( (void) 0 )
#endif
static long t_live = 0, t_allocs = 0;
static int t_fail = 0;		/* 1: allocations (and whatever else is modelled) may fail, 2: only printing may */
static int t_failed = 0;
void *t_malloc( size_t n )
{
	void *p;
	MOMENT();
	if( t_fail == 1 && ndbool() ) { t_failed++; return NULL; }
#if defined( BIG_BUFFERS )
	if( n > 1024 )
	{
		/* of no constant size for the model checker, which would spell out every byte */
		uint64_t zero = nd();
		ASSUME( zero * 3 == 0 );
		n += zero;
	}
#endif
	p = big_alloc( n );
	t_live++;
	t_allocs++;
	return p;
}
void t_free( void *p )
{
	if( p == NULL )
		return;
	t_live--;
	MOMENT();
	free( p );
	MOMENT();
}
void *t_realloc( void *p, size_t n )
{
	(void) p; (void) n;
	CHECK( 0, "realloc is not expected here" );
	return NULL;
}
void *t_calloc( size_t n, size_t m )
{
	void *p;
	if( t_fail == 1 && ndbool() ) { t_failed++; return NULL; }
	p = calloc( n, m );
	t_live++;
	t_allocs++;
	return p;
}
/* errors: at most one live chain per error variable */
static long t_errors = 0;	/* live error values */
static long t_error_sets = 0;
static char t_error_token[ 8 ];
void libcerror_error_set( libcerror_error_t **error, int d, int c, const char *f, ... )
{
	(void) d; (void) c; (void) f;
	t_error_sets++;
	if( error == NULL )
		return;
	if( *error == NULL )
	{
		*error = (libcerror_error_t *) t_error_token;
		t_errors++;
	}
	else
		CHECK( *error == (libcerror_error_t *) t_error_token, "an error is only added to a valid error value" );
}
void libcerror_system_set_error( libcerror_error_t **error, int d, int c, uint32_t s, const char *f, ... )
{
	(void) s;
	libcerror_error_set( error, d, c, f );
}
void libcerror_error_free( libcerror_error_t **error )
{
	if( error == NULL || *error == NULL )
		return;
	CHECK( *error == (libcerror_error_t *) t_error_token, "a valid error value is freed" );
	*error = NULL;
	t_errors--;
}
#endif
