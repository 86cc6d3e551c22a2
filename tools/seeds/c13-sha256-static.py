PROPERTY = "C13"
FILE = "libhmac/libhmac_sha256_context.c"
OLD = "	uint32_t values_32bit[ 64 ];\n"
NEW = "	static uint32_t values_32bit[ 64 ];\n"
NEEDS = "two threads that hash at the same time"
BREAKS = "the message schedule is process-wide: concurrent calls mix it up"
SOURCES = ["libhmac/libhmac_sha256_context.c", "libhmac/libhmac_sha256.c"]
LOCAL = True
FLAGS = "-O0"
LIBS = "-lpthread"
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include <pthread.h>
#include "libhmac_sha256.h"
static uint8_t m[ 1 << 16 ], want[ 32 ];
static int bad;
static void *work( void *a )
{
	uint8_t h[ 32 ];
	int i;
	for( i = 0; i < 200; i++ )
		if( libhmac_sha256_calculate( m, sizeof( m ), h, 32, NULL ) != 1 || memcmp( h, want, 32 ) ) __atomic_store_n( &bad, 1, __ATOMIC_SEQ_CST );
	return NULL;
}
int main( void )
{
	pthread_t t[ 4 ];
	int i;
	memset( m, 3, sizeof( m ) );
	if( libhmac_sha256_calculate( m, sizeof( m ), want, 32, NULL ) != 1 ) return 2;
	for( i = 0; i < 4; i++ ) pthread_create( &t[ i ], NULL, work, NULL );
	for( i = 0; i < 4; i++ ) pthread_join( t[ i ], NULL );
	return bad;
}
'''
