/* Stand-in for libcpath's public header (the tool includes it and uses nothing of it). */
#if !defined( _LIBCPATH_H )
#define _LIBCPATH_H
#include "libcerror.h"
#endif
