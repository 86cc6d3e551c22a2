/* Stand-in for libuna's public header (the tool uses its version text only). */
#if !defined( _LIBUNA_H )
#define _LIBUNA_H
#include "libcerror.h"
#define LIBUNA_VERSION_STRING "0"
#endif
