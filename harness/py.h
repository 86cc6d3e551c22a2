/* A model of the interpreter's C interface and of libhmac and libcerror as the Python binding sees them.
 * PROP selects whose assertions are compiled: 26 values, 27 references, contexts and exceptions, 28 the interpreter lock. */
#if !defined( VERIF_PY_H )
#define VERIF_PY_H
#include "nd.h"
#include <common.h>
#include <types.h>
#include <stdarg.h>
#include "pyhmac_python.h"
#include "pyhmac_libcerror.h"
#include "pyhmac_libhmac.h"
#include "pyhmac.h"
#include "pyhmac_error.h"
#include "pyhmac_md5.h"
#include "pyhmac_sha1.h"
#include "pyhmac_sha224.h"
#include "pyhmac_sha256.h"
#include "pyhmac_sha512.h"
#include "pyhmac_md5_context.h"
#include "pyhmac_sha1_context.h"
#include "pyhmac_sha224_context.h"
#include "pyhmac_sha256_context.h"
#include "pyhmac_sha512_context.h"

extern PyModuleDef pyhmac_module_definition;

#if !defined( FAULTS )
#define FAULTS 0
#endif
#define NONE_COUNT 1000
#if PROP == 26
#define CHECK26( c, m ) CHECK( c, m )
#else
#define CHECK26( c, m ) ( (void) 0 )
#endif
#if PROP == 27
#define CHECK27( c, m ) CHECK( c, m )
#else
#define CHECK27( c, m ) ( (void) 0 )
#endif
#if PROP == 28
#define CHECK28( c, m ) CHECK( c, m )
#else
#define CHECK28( c, m ) ( (void) 0 )
#endif
#if PROP == 27 && !defined( REPLAY )
#define CHECK27R( p, n, m ) CHECK( __CPROVER_r_ok( p, n ), m )
#else
#define CHECK27R( p, n, m ) ( (void) 0 )
#endif

/* The interpreter lock */
static int lock_held = 1;
static int lock_saves = 0;
static int gil_ensured = 0;
static char thread_state[ 8 ];
#define API( f ) CHECK28( lock_held, f " is called without the interpreter lock" )

static int fails( void ) { return( FAULTS && ndbool() ); }

PyThreadState *PyEval_SaveThread( void )
{
	CHECK28( lock_held, "the interpreter lock is released while it is not held" );
	lock_held = 0;
	lock_saves++;
	return( (PyThreadState *) thread_state );
}
void PyEval_RestoreThread( PyThreadState *s )
{
	CHECK28( !lock_held, "the interpreter lock is acquired while it is held" );
	CHECK28( s == (PyThreadState *) thread_state, "the interpreter lock is acquired for another thread state" );
	lock_held = 1;
}
PyGILState_STATE PyGILState_Ensure( void ) { CHECK28( gil_ensured == 0 || gil_ensured == 1, "the interpreter lock state is ensured more than once" ); gil_ensured++; return( PyGILState_LOCKED ); }
void PyGILState_Release( PyGILState_STATE s )
{
	CHECK28( gil_ensured > 0, "the interpreter lock state is released more often than ensured" );
	CHECK28( s == PyGILState_LOCKED, "the interpreter lock state that is released is not the one ensured" );
	gil_ensured--;
}
int PyGILState_Check( void ) { return( lock_held ); }

/* Objects: bytes arguments (owned by the caller), and what the interpreter hands out */
#define POOL 10
typedef struct { PyBytesObject b; } slot_t;
static slot_t pool[ POOL ];
/* what bytes objects hold */
static char pool_bytes[ POOL ][ 64 ];
static int pool_used = 0;
static int pool_live[ POOL ];
static PyTypeObject other_type;
#define K_BYTES 0
#define K_OTHER 1
#define K_LIAR 2
#define K_RAISES 3
static PyBytesObject arg_object[ 2 ];
static int arg_kind[ 2 ];
static PyObject tuple_object, dict_object, module_object;
static int module_live = 0, module_added = 0;
static PyObject *module_member[ 5 ];
static int context_deallocs = 0, tp_frees = 0;

PyObject _Py_NoneStruct;
PyTypeObject PyBytes_Type, PyUnicode_Type, PyType_Type, PyBaseObject_Type, PyByteArray_Type;
#define EXC( n ) static PyObject exc_##n; PyObject *PyExc_##n = &exc_##n;
EXC( TypeError ) EXC( ValueError ) EXC( RuntimeError ) EXC( IOError ) EXC( OSError ) EXC( MemoryError ) EXC( OverflowError ) EXC( SystemError ) EXC( Exception ) EXC( BaseException ) EXC( AttributeError )
EXC( KeyError ) EXC( IndexError ) EXC( NotImplementedError ) EXC( ImportError ) EXC( BufferError )

static void set_up_exc( PyObject *o ) { o->ob_refcnt = NONE_COUNT; o->ob_type = &PyType_Type; }
static long exc_refs( void )
{
	return( exc_TypeError.ob_refcnt + exc_ValueError.ob_refcnt + exc_RuntimeError.ob_refcnt + exc_IOError.ob_refcnt + exc_OSError.ob_refcnt + exc_MemoryError.ob_refcnt + exc_OverflowError.ob_refcnt
	 + exc_SystemError.ob_refcnt + exc_Exception.ob_refcnt + exc_BaseException.ob_refcnt + exc_AttributeError.ob_refcnt + exc_KeyError.ob_refcnt + exc_IndexError.ob_refcnt + exc_NotImplementedError.ob_refcnt
	 + exc_ImportError.ob_refcnt + exc_BufferError.ob_refcnt );
}
#define EXC_REFS ( 16L * NONE_COUNT )

static void set_up( void )
{
	int i;

	_Py_NoneStruct.ob_refcnt = NONE_COUNT;
	_Py_NoneStruct.ob_type = &other_type;
	PyBytes_Type.tp_flags = Py_TPFLAGS_BYTES_SUBCLASS;
	PyUnicode_Type.tp_flags = Py_TPFLAGS_UNICODE_SUBCLASS;
	set_up_exc( &exc_TypeError ); set_up_exc( &exc_ValueError ); set_up_exc( &exc_RuntimeError ); set_up_exc( &exc_IOError ); set_up_exc( &exc_OSError ); set_up_exc( &exc_MemoryError ); set_up_exc( &exc_OverflowError );
	set_up_exc( &exc_SystemError ); set_up_exc( &exc_Exception ); set_up_exc( &exc_BaseException ); set_up_exc( &exc_AttributeError ); set_up_exc( &exc_KeyError ); set_up_exc( &exc_IndexError ); set_up_exc( &exc_NotImplementedError );
	set_up_exc( &exc_ImportError ); set_up_exc( &exc_BufferError );
	tuple_object.ob_refcnt = dict_object.ob_refcnt = NONE_COUNT;
	tuple_object.ob_type = dict_object.ob_type = &other_type;
	for( i = 0; i < 2; i++ )
	{
		arg_object[ i ].ob_base.ob_base.ob_refcnt = NONE_COUNT;
		arg_kind[ i ] = K_BYTES;
#if defined( KINDS )
		arg_kind[ i ] = (int) ndrange( 0, 3 );
#endif
		arg_object[ i ].ob_base.ob_base.ob_type = ( arg_kind[ i ] == K_BYTES ) ? &PyBytes_Type : &other_type;
		arg_object[ i ].ob_base.ob_size = (Py_ssize_t) ndrange( 0, (uint64_t) PY_SSIZE_T_MAX );
	}
}

/* -1 if it is no object of the interpreter's */
static int pool_index( PyObject *o )
{
	int i;

	for( i = 0; i < POOL; i++ )
		if( o == (PyObject *) &( pool[ i ] ) )
			return( i );
	return( -1 );
}
static void alive( PyObject *o )
{
	int i = pool_index( o );

	CHECK27( o != NULL, "the interpreter is given no object" );
	CHECK27( i < 0 || pool_live[ i ], "an object is used after its last reference was given up" );
	CHECK27( o != &module_object || module_live, "the module is used after its last reference was given up" );
	(void) i;
}
static PyObject *new_object( PyTypeObject *type )
{
	slot_t *s;

	ASSUME( pool_used < POOL );
	s = &( pool[ pool_used ] );
	s->b.ob_base.ob_base.ob_refcnt = 1;
	s->b.ob_base.ob_base.ob_type = type;
	s->b.ob_base.ob_size = 0;
	pool_live[ pool_used ] = 1;
	pool_used++;
	return( (PyObject *) s );
}
static int live_objects( void )
{
	int i, n = 0;

	for( i = 0; i < POOL; i++ )
		n += pool_live[ i ];
	return( n );
}
#if defined( THE_TYPE )
static PyObject *the_object = NULL;
#endif
void _Py_Dealloc( PyObject *o )
{
	int i = pool_index( o );

	API( "_Py_Dealloc" );
	if( i >= 0 )
	{
		CHECK27( pool_live[ i ], "an object is released twice" );
		pool_live[ i ] = 0;
		return;
	}
	if( o == &module_object )
	{
		CHECK27( module_live, "the module is released twice" );
		module_live = 0;
		for( i = 0; i < module_added; i++ )
			module_member[ i ]->ob_refcnt--;
		return;
	}
#if defined( THE_TYPE )
	if( o == the_object )
	{
		CHECK27( o->ob_type == &THE_TYPE && THE_TYPE.tp_dealloc == (destructor) THE_FREE, "an object's type does not release it" );
		context_deallocs++;
		THE_FREE( (void *) o );
		return;
	}
#endif
	CHECK27( 0, "an object that belongs to others loses its last reference" );
}
void Py_IncRef( PyObject *o ) { API( "Py_IncRef" ); if( o != NULL ) { alive( o ); o->ob_refcnt++; } }
void Py_DecRef( PyObject *o )
{
	API( "Py_DecRef" );
	if( o == NULL )
		return;
	alive( o );
	CHECK27( o->ob_refcnt > 0, "a reference is given up that nobody held" );
	if( --o->ob_refcnt == 0 )
		_Py_Dealloc( o );
}

/* Exceptions */
static PyObject *exc_type = NULL, *exc_value = NULL;
static void exc_clear( void )
{
	PyObject *t = exc_type, *v = exc_value;

	exc_type = exc_value = NULL;
	if( t != NULL )
		t->ob_refcnt--;
	if( v != NULL && --v->ob_refcnt == 0 && pool_index( v ) >= 0 )
		pool_live[ pool_index( v ) ] = 0;
}
static void exc_set( PyObject *type )
{
	exc_clear();
	type->ob_refcnt++;
	exc_type = type;
}
/* Every %s of the format reads a string */
static void read_format( const char *format, va_list arguments )
{
	const char *s;

	for( ; *format != 0; format++ )
	{
		if( format[ 0 ] != '%' )
			continue;
		format++;
		if( *format == '%' )
			continue;
		CHECK27( *format == 's', "a format has a directive that is not modelled" );
		s = va_arg( arguments, const char * );
		CHECK27R( s, 1, "a string to be formatted is not readable" );
		(void) s;
	}
}
PyObject *PyErr_Format( PyObject *type, const char *format, ... )
{
	va_list a;

	API( "PyErr_Format" );
	va_start( a, format );
	read_format( format, a );
	va_end( a );
	exc_set( type );
	return( NULL );
}
void PyErr_SetString( PyObject *type, const char *s ) { API( "PyErr_SetString" ); exc_set( type ); }
void PyErr_SetNone( PyObject *type ) { API( "PyErr_SetNone" ); exc_set( type ); }
PyObject *PyErr_NoMemory( void ) { API( "PyErr_NoMemory" ); exc_set( PyExc_MemoryError ); return( NULL ); }
void PyErr_Clear( void ) { API( "PyErr_Clear" ); exc_clear(); }
PyObject *PyErr_Occurred( void ) { API( "PyErr_Occurred" ); return( exc_type ); }
void PyErr_Fetch( PyObject **t, PyObject **v, PyObject **b )
{
	API( "PyErr_Fetch" );
	*t = exc_type;
	*v = exc_value;
	*b = NULL;
	if( exc_type != NULL )
	{
		if( exc_value == NULL && ndbool() )
			*v = new_object( &other_type );
		if( ndbool() )
			*b = new_object( &other_type );
	}
	exc_type = exc_value = NULL;
}
void PyErr_Restore( PyObject *t, PyObject *v, PyObject *b )
{
	API( "PyErr_Restore" );
	exc_clear();
	exc_type = t;
	exc_value = v;
	Py_DecRef( b );
}
PyObject *PyErr_GetRaisedException( void )
{
	PyObject *v = exc_value;

	API( "PyErr_GetRaisedException" );
	if( exc_type == NULL )
		return( NULL );
	if( v == NULL )
		v = new_object( &other_type );
	exc_type->ob_refcnt--;
	exc_type = exc_value = NULL;
	return( v );
}
void PyErr_SetRaisedException( PyObject *v )
{
	API( "PyErr_SetRaisedException" );
	exc_clear();
	if( v != NULL )
	{
		exc_set( PyExc_Exception );
		exc_value = v;
	}
}
void PyErr_NormalizeException( PyObject **t, PyObject **v, PyObject **b ) { API( "PyErr_NormalizeException" ); if( *t != NULL && *v == NULL ) *v = new_object( &other_type ); }
void PyErr_WriteUnraisable( PyObject *o ) { API( "PyErr_WriteUnraisable" ); exc_clear(); }

/* Strings, bytes, arguments */
PyObject *PyObject_Repr( PyObject *o )
{
	API( "PyObject_Repr" );
	if( o != NULL )
		alive( o );
	if( fails() ) { exc_set( PyExc_ValueError ); return( NULL ); }
	return( new_object( &PyUnicode_Type ) );
}
PyObject *PyObject_Str( PyObject *o ) { return( PyObject_Repr( o ) ); }
PyObject *PyUnicode_AsUTF8String( PyObject *o )
{
	API( "PyUnicode_AsUTF8String" );
	alive( o );
	if( fails() ) { exc_set( PyExc_MemoryError ); return( NULL ); }
	return( new_object( &PyBytes_Type ) );
}
static int is_bytes( PyObject *o ) { return( o->ob_type == &PyBytes_Type ); }
char *PyBytes_AsString( PyObject *o )
{
	API( "PyBytes_AsString" );
	alive( o );
	if( !is_bytes( o ) ) { exc_set( PyExc_TypeError ); return( NULL ); }
	return( ( (PyBytesObject *) o )->ob_sval );
}
Py_ssize_t PyBytes_Size( PyObject *o )
{
	API( "PyBytes_Size" );
	alive( o );
	if( !is_bytes( o ) ) { exc_set( PyExc_TypeError ); return( -1 ); }
	return( ( (PyVarObject *) o )->ob_size );
}
int PyBytes_AsStringAndSize( PyObject *o, char **s, Py_ssize_t *n )
{
	API( "PyBytes_AsStringAndSize" );
	alive( o );
	if( !is_bytes( o ) ) { exc_set( PyExc_TypeError ); return( -1 ); }
	*s = ( (PyBytesObject *) o )->ob_sval;
	*n = ( (PyVarObject *) o )->ob_size;
	return( 0 );
}
PyObject *PyBytes_FromStringAndSize( const char *s, Py_ssize_t n )
{
	PyObject *o;
	Py_ssize_t i;

	API( "PyBytes_FromStringAndSize" );
	CHECK26( n >= 0 && n <= 64, "the bytes returned have no digest's size" );
	ASSUME( n >= 0 && n <= 64 );
	CHECK27R( s, (size_t) n, "the bytes to be returned are not readable" );
	if( fails() ) { exc_set( PyExc_MemoryError ); return( NULL ); }
	o = new_object( &PyBytes_Type );
	( (PyVarObject *) o )->ob_size = n;
	for( i = 0; i < 64; i++ )
		pool_bytes[ pool_used - 1 ][ i ] = ( i < n ) ? s[ i ] : 0;
	return( o );
}
int PyObject_IsInstance( PyObject *o, PyObject *type )
{
	int i;

	API( "PyObject_IsInstance" );
	alive( o );
	CHECK26( type == (PyObject *) &PyBytes_Type, "an argument is compared with another type than bytes" );
	for( i = 0; i < 2; i++ )
		if( o == (PyObject *) &( arg_object[ i ] ) )
		{
			if( arg_kind[ i ] == K_RAISES ) { exc_set( PyExc_RuntimeError ); return( -1 ); }
			return( arg_kind[ i ] == K_BYTES || arg_kind[ i ] == K_LIAR );
		}
	return( is_bytes( o ) );
}
int PyType_IsSubtype( PyTypeObject *a, PyTypeObject *b ) { API( "PyType_IsSubtype" ); return( a == b ); }

/* The call under way, as the documentation names its arguments */
static int call_args = 0;
static const char *call_name[ 2 ];
static PyObject *call_value[ 2 ];
static int call_keywords = 0;
static int parse_failed = 0;
static int same( const char *a, const char *b ) { while( *a != 0 && *a == *b ) { a++; b++; } return( *a == *b ); }
static PyObject *argument( char **names, int k )
{
	int i;

	CHECK27( names[ k ] != NULL, "the format has more arguments than there are names" );
	if( k >= call_args )
		return( NULL );
	if( !call_keywords )
		return( call_value[ k ] );
	for( i = 0; i < call_args; i++ )
		if( same( names[ k ], call_name[ i ] ) )
			return( call_value[ i ] );
	return( NULL );
}
int PyArg_ParseTupleAndKeywords( PyObject *args, PyObject *kw, const char *format, char **names, ... )
{
	va_list a;
	int k = 0, optional = 0, bad = 0;
	PyObject *v;

	API( "PyArg_ParseTupleAndKeywords" );
	CHECK27( args == &tuple_object && kw == &dict_object, "other arguments are parsed than those given" );
	if( fails() ) { exc_set( PyExc_TypeError ); parse_failed = 1; return( 0 ); }
	va_start( a, names );
	for( ; *format != 0 && *format != ':' && *format != ';'; format++ )
	{
		if( *format == '|' ) { optional = 1; continue; }
		if( *format == '$' ) continue;
		if( *format == '#' ) continue;
		v = argument( names, k );
		if( v == NULL && !optional )
			bad = 1;
		if( *format == 'O' )
		{
			PyObject **p = va_arg( a, PyObject ** );
			if( !bad && v != NULL ) *p = v;
		}
		else if( *format == 'S' )
		{
			PyObject **p = va_arg( a, PyObject ** );
			if( !bad && v != NULL && !is_bytes( v ) ) bad = 1;
			if( !bad && v != NULL ) *p = v;
		}
		else
		{
			CHECK27( *format == 'y' && format[ 1 ] == '#', "the format has a code that is not modelled" );
			const char **p = va_arg( a, const char ** );
			Py_ssize_t *n = va_arg( a, Py_ssize_t * );
			if( !bad && v != NULL && !is_bytes( v ) ) bad = 1;
			if( !bad && v != NULL ) { *p = ( (PyBytesObject *) v )->ob_sval; *n = ( (PyVarObject *) v )->ob_size; }
		}
		k++;
	}
	va_end( a );
	if( names[ k ] != NULL || k < call_args )
		bad = 1;
	if( bad ) { exc_set( PyExc_TypeError ); return( 0 ); }
	return( 1 );
}
static char *decode_text = NULL;
static Py_ssize_t decode_size = -1;
PyObject *PyUnicode_DecodeUTF8( const char *s, Py_ssize_t n, const char *errors )
{
	API( "PyUnicode_DecodeUTF8" );
	decode_text = (char *) s;
	decode_size = n;
	if( fails() ) { exc_set( PyExc_MemoryError ); return( NULL ); }
	return( new_object( &PyUnicode_Type ) );
}
PyObject *PyUnicode_FromStringAndSize( const char *s, Py_ssize_t n ) { return( PyUnicode_DecodeUTF8( s, n, NULL ) ); }
PyObject *PyUnicode_FromString( const char *s ) { return( PyUnicode_DecodeUTF8( s, (Py_ssize_t) strlen( s ), NULL ) ); }
int PyOS_vsnprintf( char *s, size_t size, const char *format, va_list a )
{
	size_t i, n;

	CHECK27( size >= 8, "a buffer for text is too small to be of use" );
	read_format( format, a );
	if( fails() )
		return( -1 );
#if defined( LONG_TEXT )
	for( i = 0; i < 2047; i++ )
		if( i + 1 < size ) s[ i ] = 'x';
	s[ size - 1 ] = 0;
	s[ size - 2 ] = (char) ndrange( 1, 127 );
	return( 4000 );
#else
	n = (size_t) ndrange( 0, 4 );
	for( i = 0; i < 4; i++ )
		s[ i ] = ( i < n ) ? (char) ndrange( 1, 127 ) : 0;
	s[ 4 ] = 0;
	return( (int) n );
#endif
}
int PyOS_snprintf( char *s, size_t size, const char *format, ... )
{
	va_list a;
	int r;

	va_start( a, format );
	r = PyOS_vsnprintf( s, size, format, a );
	va_end( a );
	return( r );
}

/* libcerror */
static char error_object[ 8 ];
static int error_live = 0;
static void new_error( libcerror_error_t **e )
{
	if( e != NULL && *e == NULL )
	{
		*e = (libcerror_error_t *) error_object;
		error_live++;
	}
}
void libcerror_error_free( libcerror_error_t **e )
{
	if( *e != NULL )
	{
		CHECK27( *e == (libcerror_error_t *) error_object && error_live > 0, "an error is released that does not exist" );
		error_live--;
		*e = NULL;
	}
}
void libcerror_error_set( libcerror_error_t **e, int domain, int code, const char *format, ... )
{
	va_list a;

	va_start( a, format );
	read_format( format, a );
	va_end( a );
	new_error( e );
}
int libcerror_error_backtrace_sprint( libcerror_error_t *e, char *s, size_t size )
{
	size_t i, n;

	CHECK27( e == (libcerror_error_t *) error_object && error_live > 0, "an error is printed that does not exist" );
	CHECK27( size >= 8, "a buffer for text is too small to be of use" );
#if !defined( LONG_TEXT )
	if( fails() )
		return( -1 );
#endif
#if defined( LONG_TEXT )
	for( i = 0; i < 2047; i++ )
		if( i + 1 < size ) s[ i ] = 'x';
	s[ size - 1 ] = 0;
	return( (int) size );
#else
	n = (size_t) ndrange( 0, 4 );
	for( i = 0; i < 4; i++ )
		s[ i ] = ( i < n ) ? (char) ndrange( 1, 127 ) : 0;
	s[ 4 ] = 0;
	return( (int) n + 1 );
#endif
}

/* libhmac.  The hash sizes are those of the standards. */
enum { A_md5, A_sha1, A_sha224, A_sha256, A_sha512 };
static const size_t digest_size[ 5 ] = { 16, 20, 28, 32, 64 };
enum { L_NONE, L_CALCULATE, L_HMAC, L_INITIALIZE, L_UPDATE, L_FINALIZE, L_FREE };
#define CONTEXTS 8
static char context_object[ CONTEXTS ][ 8 ];
static int context_alg[ CONTEXTS ], context_live[ CONTEXTS ], contexts = 0;
static int lib_calls = 0, lib_op = 0, lib_alg = -1, lib_result = 0, lib_frees = 0, lib_free_failed = 0, lib_context = -1;
static const void *lib_data = NULL, *lib_key = NULL;
static size_t lib_size = 0, lib_key_size = 0;
static uint8_t lib_hash[ 64 ];

static int context_index( const void *c )
{
	int i;

	for( i = 0; i < CONTEXTS; i++ )
		if( c == (void *) context_object[ i ] )
			return( i );
	return( -1 );
}
static int live_contexts( void )
{
	int i, n = 0;

	for( i = 0; i < CONTEXTS; i++ )
		n += context_live[ i ];
	return( n );
}
static int lib_end( int good, libcerror_error_t **e )
{
	lib_result = good ? 1 : -1;
	if( !good && ( e != NULL ) && ndbool() )
		new_error( e );
	return( lib_result );
}
static int lib_digest( int alg, const void *data, size_t size, uint8_t *hash, size_t hash_size, libcerror_error_t **e )
{
	size_t i;

	lib_calls++;
	lib_alg = alg;
	lib_data = data;
	lib_size = size;
	CHECK27R( hash, hash_size, "the digest buffer is not as large as stated" );
	if( ( hash == NULL ) || ( hash_size < digest_size[ alg ] ) || ndbool() )
		return( lib_end( 0, e ) );
	for( i = 0; i < 64; i++ )
		if( i < digest_size[ alg ] )
			hash[ i ] = lib_hash[ i ] = nd8();
	return( lib_end( 1, e ) );
}
static int lib_initialize( int alg, void **c, libcerror_error_t **e )
{
	lib_calls++;
	lib_op = L_INITIALIZE;
	lib_alg = alg;
	if( ( *c != NULL ) || ndbool() )
		return( lib_end( 0, e ) );
	ASSUME( contexts < CONTEXTS );
	context_alg[ contexts ] = alg;
	context_live[ contexts ] = 1;
	*c = (void *) context_object[ contexts ];
	contexts++;
	return( lib_end( 1, e ) );
}
/* 1 if the context can be used */
static int lib_use( int alg, const void *c )
{
	int i = context_index( c );

	lib_context = i;
	if( c == NULL )
		return( 0 );
	CHECK27( i >= 0 && context_live[ i ], "a context is used that does not exist" );
	CHECK26( i < 0 || context_alg[ i ] == alg, "a context is used with another algorithm's functions" );
	return( i >= 0 );
}
static int lib_free( int alg, void **c, libcerror_error_t **e )
{
	int i;

	lib_frees++;
	if( *c == NULL )
		return( 1 );
	i = context_index( *c );
	CHECK27( i >= 0 && context_live[ i ], "a context is released that does not exist" );
	CHECK26( i < 0 || context_alg[ i ] == alg, "a context is released with another algorithm's function" );
	if( i >= 0 )
		context_live[ i ] = 0;
	*c = NULL;
	if( fails() )
	{
		lib_free_failed = 1;
		if( ( e != NULL ) && ndbool() )
			new_error( e );
		return( -1 );
	}
	return( 1 );
}
#define LIB( a ) \
int libhmac_##a##_calculate( const uint8_t *b, size_t n, uint8_t *h, size_t hn, libcerror_error_t **e ) \
{ \
	CHECK28( !lock_held, "the digest of the caller's data is computed while the interpreter lock is held" ); \
	lib_op = L_CALCULATE; \
	return( lib_digest( A_##a, b, n, h, hn, e ) ); \
} \
int libhmac_##a##_calculate_hmac( const uint8_t *k, size_t kn, const uint8_t *b, size_t n, uint8_t *h, size_t hn, libcerror_error_t **e ) \
{ \
	CHECK28( !lock_held, "the digest of the caller's data is computed while the interpreter lock is held" ); \
	lib_op = L_HMAC; \
	lib_key = k; \
	lib_key_size = kn; \
	return( lib_digest( A_##a, b, n, h, hn, e ) ); \
} \
int libhmac_##a##_initialize( libhmac_##a##_context_t **c, libcerror_error_t **e ) { return( lib_initialize( A_##a, (void **) c, e ) ); } \
int libhmac_##a##_free( libhmac_##a##_context_t **c, libcerror_error_t **e ) { return( lib_free( A_##a, (void **) c, e ) ); } \
int libhmac_##a##_update( libhmac_##a##_context_t *c, const uint8_t *b, size_t n, libcerror_error_t **e ) \
{ \
	CHECK28( !lock_held, "the digest of the caller's data is computed while the interpreter lock is held" ); \
	lib_calls++; \
	lib_op = L_UPDATE; \
	lib_alg = A_##a; \
	lib_data = b; \
	lib_size = n; \
	return( lib_end( lib_use( A_##a, c ) && !ndbool(), e ) ); \
} \
int libhmac_##a##_finalize( libhmac_##a##_context_t *c, uint8_t *h, size_t hn, libcerror_error_t **e ) \
{ \
	lib_op = L_FINALIZE; \
	if( !lib_use( A_##a, c ) ) { lib_calls++; lib_alg = A_##a; return( lib_end( 0, e ) ); } \
	return( lib_digest( A_##a, NULL, 0, h, hn, e ) ); \
}
LIB( md5 )
LIB( sha1 )
LIB( sha224 )
LIB( sha256 )
LIB( sha512 )
static const char version_text[] = "20991231";
const char *libhmac_get_version( void ) { return( version_text ); }

/* Types and the module */
static void t_tp_free( void *p ) { API( "tp_free" ); tp_frees++; }
PyObject *PyType_GenericNew( PyTypeObject *t, PyObject *a, PyObject *k ) { return( NULL ); }
static int types_ready = 0;
int PyType_Ready( PyTypeObject *t )
{
	API( "PyType_Ready" );
	if( fails() ) { exc_set( PyExc_MemoryError ); return( -1 ); }
	if( t->tp_free == NULL )
		t->tp_free = t_tp_free;
	types_ready++;
	return( 0 );
}
PyObject *PyModule_Create2( PyModuleDef *d, int v )
{
	API( "PyModule_Create2" );
	if( fails() ) { exc_set( PyExc_MemoryError ); return( NULL ); }
	module_object.ob_refcnt = 1;
	module_object.ob_type = &other_type;
	module_live = 1;
	return( &module_object );
}
static const char *module_name[ 5 ];
int PyModule_AddObject( PyObject *m, const char *n, PyObject *o )
{
	API( "PyModule_AddObject" );
	CHECK27( m == &module_object && module_live, "an object is added to another module" );
	if( fails() ) { exc_set( PyExc_MemoryError ); return( -1 ); }
	ASSUME( module_added < 5 );
	module_name[ module_added ] = n;
	module_member[ module_added++ ] = o;
	return( 0 );
}
int PyModule_AddObjectRef( PyObject *m, const char *n, PyObject *o )
{
	if( o == NULL || PyModule_AddObject( m, n, o ) != 0 )
		return( -1 );
	o->ob_refcnt++;
	return( 0 );
}
int PyModule_Add( PyObject *m, const char *n, PyObject *o )
{
	if( o == NULL )
		return( -1 );
	if( PyModule_AddObject( m, n, o ) != 0 ) { Py_DecRef( o ); return( -1 ); }
	return( 0 );
}
/* The one object made without clearing its memory */
#if defined( THE_TYPE )
static THE_CONTEXT_TYPE made;
PyObject *_PyObject_New( PyTypeObject *t )
{
	API( "_PyObject_New" );
	CHECK27( t == &THE_TYPE, "an object of another type is made" );
	if( fails() ) { exc_set( PyExc_MemoryError ); return( NULL ); }
	made.THE_FIELD = (void *) 0x5a5a5a5a;
	made.ob_base.ob_refcnt = 1;
	made.ob_base.ob_type = t;
	the_object = (PyObject *) &made;
	return( (PyObject *) &made );
}
#else
PyObject *_PyObject_New( PyTypeObject *t ) { return( NULL ); }
#endif
void PyObject_Free( void *p ) { t_tp_free( p ); }

/* What holds after every call: nothing that the caller did not give or get has changed */
static void balanced( PyObject *got )
{
	int in_state = ( exc_value != NULL ) && ( pool_index( exc_value ) >= 0 );

	CHECK28( lock_held, "a call ends without the interpreter lock" );
	CHECK28( gil_ensured == 0, "a call ends with the interpreter lock state still ensured" );
	CHECK27( _Py_NoneStruct.ob_refcnt == NONE_COUNT + ( got == &_Py_NoneStruct ), "None gains or loses a reference" );
	CHECK27( exc_refs() == EXC_REFS + ( exc_type != NULL && exc_type != &other_type.ob_base.ob_base ), "an exception type gains or loses a reference" );
	CHECK27( arg_object[ 0 ].ob_base.ob_base.ob_refcnt == NONE_COUNT && arg_object[ 1 ].ob_base.ob_base.ob_refcnt == NONE_COUNT, "an argument gains or loses a reference" );
	CHECK27( tuple_object.ob_refcnt == NONE_COUNT && dict_object.ob_refcnt == NONE_COUNT, "the argument list gains or loses a reference" );
	CHECK27( live_objects() == ( got != NULL && pool_index( got ) >= 0 ) + in_state, "a temporary object is never released" );
	CHECK27( got == NULL || pool_index( got ) < 0 || ( pool_live[ pool_index( got ) ] && got->ob_refcnt == 1 ), "the object returned has not exactly one reference" );
	CHECK27( error_live == 0, "an error of the library is never released" );
	(void) in_state;
}
#endif
