PROPERTY = "C02"
FILE = "libhmac/libhmac_sha1_context.c"
OLD = """	if( EVP_DigestUpdate(
	     internal_context->evp_md_context,
	     (const void *) buffer,
	     size ) != 1 )
"""
NEW = """	if( EVP_DigestUpdate(
	     internal_context->evp_md_context,
	     (const void *) buffer,
	     (unsigned int) size ) != 1 )
"""
NEEDS = "the OpenSSL build and a buffer of 4 GiB or more in one update"
BREAKS = "the size given to the back end loses what lies above 32 bits"
CFG = "evp"
SOURCES = ["libhmac/libhmac_sha1_context.c", "libhmac/libhmac_sha1.c"]
LOCAL = True
DEMO = r'''
#include <common.h>
#include <types.h>
#include <string.h>
#include <stdio.h>
#include <openssl/evp.h>
#include "libhmac_sha1.h"
/* A back end that only records the size it is given */
static size_t seen;
static char token[ 8 ];
EVP_MD_CTX *EVP_MD_CTX_new( void ) { return( (EVP_MD_CTX *) token ); }
void EVP_MD_CTX_free( EVP_MD_CTX *c ) { }
const EVP_MD *EVP_sha1( void ) { return( (const EVP_MD *) token ); }
int EVP_DigestInit_ex2( EVP_MD_CTX *c, const EVP_MD *m, const OSSL_PARAM *p ) { return( 1 ); }
int EVP_DigestUpdate( EVP_MD_CTX *c, const void *d, size_t n ) { seen += n; return( 1 ); }
int EVP_DigestFinal_ex( EVP_MD_CTX *c, unsigned char *h, unsigned int *n ) { memset( h, 0, 20 ); if( n ) *n = 20; return( 1 ); }
int main( void )
{
	uint8_t h[ 20 ], b[ 8 ];
	size_t n = ( (size_t) 1 << 32 ) + 3;
	if( libhmac_sha1_calculate( b, n, h, 20, NULL ) != 1 ) return 2;
	if( seen != n ) { printf( "the back end was given %zu of %zu bytes\n", seen, n ); return 1; }
	return 0;
}
'''
