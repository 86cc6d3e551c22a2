/* Stand-in for OpenSSL 1.0's evp.h: EVP_MD_CTX is a complete type with init/cleanup. */
#ifndef VERIF_EVP10_H
#define VERIF_EVP10_H
#include <stddef.h>
typedef struct env_md_st EVP_MD;
typedef struct engine_st ENGINE;
typedef struct env_md_ctx_st { const EVP_MD *digest; void *engine; unsigned long flags; void *md_data; void *pctx; void *update; } EVP_MD_CTX;
void EVP_MD_CTX_init( EVP_MD_CTX *ctx );
int EVP_MD_CTX_cleanup( EVP_MD_CTX *ctx );
int EVP_DigestInit_ex( EVP_MD_CTX *ctx, const EVP_MD *type, ENGINE *impl );
int EVP_DigestUpdate( EVP_MD_CTX *ctx, const void *d, size_t cnt );
int EVP_DigestFinal_ex( EVP_MD_CTX *ctx, unsigned char *md, unsigned int *s );
const EVP_MD *EVP_md5( void );
const EVP_MD *EVP_sha1( void );
const EVP_MD *EVP_sha224( void );
const EVP_MD *EVP_sha256( void );
const EVP_MD *EVP_sha512( void );
#endif
