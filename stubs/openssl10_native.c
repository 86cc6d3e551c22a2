/* Replays of the OpenSSL 1.0 configuration: its EVP entry points over libcrypto's low-level digests. */
#include <stdlib.h>
#include <string.h>
#include <openssl/evp.h>
#include <openssl/err.h>
typedef struct { char b[ 512 ]; } any_ctx;
int MD5_Init( void * ); int MD5_Update( void *, const void *, size_t ); int MD5_Final( unsigned char *, void * );
int SHA1_Init( void * ); int SHA1_Update( void *, const void *, size_t ); int SHA1_Final( unsigned char *, void * );
int SHA224_Init( void * ); int SHA224_Update( void *, const void *, size_t ); int SHA224_Final( unsigned char *, void * );
int SHA256_Init( void * ); int SHA256_Update( void *, const void *, size_t ); int SHA256_Final( unsigned char *, void * );
int SHA512_Init( void * ); int SHA512_Update( void *, const void *, size_t ); int SHA512_Final( unsigned char *, void * );
struct env_md_st { int id; int size; int (*init)( void * ); int (*update)( void *, const void *, size_t ); int (*final)( unsigned char *, void * ); };
static const EVP_MD mds[ 5 ] = { { 0, 16, MD5_Init, MD5_Update, MD5_Final }, { 1, 20, SHA1_Init, SHA1_Update, SHA1_Final },
 { 2, 28, SHA224_Init, SHA224_Update, SHA224_Final }, { 3, 32, SHA256_Init, SHA256_Update, SHA256_Final }, { 4, 64, SHA512_Init, SHA512_Update, SHA512_Final } };
__attribute__((visibility("default"))) const EVP_MD *EVP_md5( void ) { return &mds[ 0 ]; }
const EVP_MD *EVP_sha1( void ) { return &mds[ 1 ]; }
const EVP_MD *EVP_sha224( void ) { return &mds[ 2 ]; }
const EVP_MD *EVP_sha256( void ) { return &mds[ 3 ]; }
const EVP_MD *EVP_sha512( void ) { return &mds[ 4 ]; }
void EVP_MD_CTX_init( EVP_MD_CTX *c ) { memset( c, 0, sizeof( *c ) ); }
int EVP_MD_CTX_cleanup( EVP_MD_CTX *c ) { free( c->md_data ); memset( c, 0, sizeof( *c ) ); return 1; }
int EVP_DigestInit_ex( EVP_MD_CTX *c, const EVP_MD *t, ENGINE *e ) { if( t == NULL ) return 0; c->digest = t; if( c->md_data == NULL ) c->md_data = malloc( sizeof( any_ctx ) ); return t->init( c->md_data ); }
int EVP_DigestUpdate( EVP_MD_CTX *c, const void *d, size_t n ) { if( c->digest == NULL || c->md_data == NULL ) return 0; return c->digest->update( c->md_data, d, n ); }
int EVP_DigestFinal_ex( EVP_MD_CTX *c, unsigned char *md, unsigned int *s ) { if( c->digest == NULL || c->md_data == NULL ) return 0; if( s ) *s = c->digest->size; return c->digest->final( md, c->md_data ); }
void ERR_remove_thread_state( const void *t ) { (void) t; }
