/* The Python binding, called as the interpreter would: through its method and type tables. */
#define CAT_( a, b, c ) a##b##c
#define CAT( a, b, c ) CAT_( a, b, c )
#if defined( PART_CONTEXT ) || defined( PART_NEW )
#define THE_TYPE CAT( pyhmac_, ALG, _context_type_object )
#define THE_CONTEXT_TYPE CAT( pyhmac_, ALG, _context_t )
#define THE_FIELD CAT( , ALG, _context )
#define THE_FREE CAT( pyhmac_, ALG, _context_free )
#endif
#include "py.h"
#define STR_( a ) #a
#define STR( a ) STR_( a )
#define TYPE CAT( pyhmac_, ALG, _context_type_object )
#define CONTEXT CAT( pyhmac_, ALG, _context_t )
#define ALGID CAT( A_, ALG, )
#define THE_CONTEXT( o ) ( (void *) ( o )->CAT( , ALG, _context ) )

static PyCFunction method( PyMethodDef *table, const char *name, int *flags )
{
	int i;

	for( i = 0; table[ i ].ml_name != NULL; i++ )
		if( same( table[ i ].ml_name, name ) )
		{
			*flags = table[ i ].ml_flags;
			return( table[ i ].ml_meth );
		}
	*flags = -1;
	return( NULL );
}
static PyObject *call( PyMethodDef *table, const char *name, PyObject *self, int args )
{
	int flags = 0;
	PyCFunction f = method( table, name, &flags );

	CHECK26( flags == ( args ? ( METH_VARARGS | METH_KEYWORDS ) : METH_NOARGS ), "a documented method is missing or takes other arguments" );
	ASSUME( flags == ( args ? ( METH_VARARGS | METH_KEYWORDS ) : METH_NOARGS ) );
	call_args = args;
	call_keywords = args ? ndbool() : 0;
	parse_failed = 0;
	lib_calls = 0;
	lib_op = L_NONE;
	lib_result = 0;
	lib_alg = -1;
	lib_data = lib_key = NULL;
	lib_context = -1;
	if( args )
		return( ( (PyCFunctionWithKeywords) f )( self, &tuple_object, &dict_object ) );
	return( f( self, NULL ) );
}
static void one( PyObject *ret )
{
	CHECK27( ( ret != NULL ) == ( exc_type == NULL ), "a call returns a value with an exception set, or nothing without one" );
	balanced( ret );
}
static void drop( PyObject *ret )
{
	if( ret != NULL )
		Py_DecRef( ret );
	exc_clear();
}
static int usable( int n ) { return( arg_kind[ 0 ] == K_BYTES && ( n < 2 || arg_kind[ 1 ] == K_BYTES ) ); }
static void digest_returned( PyObject *ret )
{
	size_t i;

	if( ret == NULL )
		return;
	CHECK26( lib_result == 1 && lib_calls == 1, "a value is returned although the library failed or was not asked once" );
	CHECK26( pool_index( ret ) >= 0 && is_bytes( ret ) && ( (PyVarObject *) ret )->ob_size == (Py_ssize_t) digest_size[ ALGID ], "what is returned is not bytes of the digest's size" );
	i = (size_t) ndrange( 0, 63 );
	CHECK26( i >= digest_size[ ALGID ] || (uint8_t) pool_bytes[ pool_index( ret ) ][ i ] == lib_hash[ i ], "what is returned is not the digest" );
}
static void the_data( int n, int op )
{
	int data = n - 1;

	if( lib_calls == 0 )
		return;
	CHECK26( lib_calls == 1 && lib_op == op && lib_alg == ALGID, "another function of the library is called" );
	CHECK26( usable( n ), "the library is given what is not bytes" );
	CHECK26( lib_data == (void *) arg_object[ data ].ob_sval && lib_size == (size_t) arg_object[ data ].ob_base.ob_size, "the library is given other data" );
	if( n == 2 )
		CHECK26( lib_key == (void *) arg_object[ 0 ].ob_sval && lib_key_size == (size_t) arg_object[ 0 ].ob_base.ob_size, "the library is given another key" );
	(void) data;
}
static void names( int n )
{
	call_name[ 0 ] = ( n == 2 ) ? "key" : "data";
	call_name[ 1 ] = "data";
	call_value[ 0 ] = (PyObject *) &( arg_object[ 0 ] );
	call_value[ 1 ] = (PyObject *) &( arg_object[ 1 ] );
}

#if defined( PART_CALCULATE )
void harness( void )
{
	int n = PART_CALCULATE, k;
	PyObject *ret;

	set_up();
	for( k = 0; k < CALLS; k++ )
	{
		names( n );
		ret = call( pyhmac_module_definition.m_methods, ( n == 2 ) ? STR( ALG ) "_calculate_hmac" : STR( ALG ) "_calculate", &module_object, n );
		one( ret );
		the_data( n, ( n == 2 ) ? L_HMAC : L_CALCULATE );
		digest_returned( ret );
		CHECK26( FAULTS || !usable( n ) || ( lib_calls == 1 ), "usable arguments do not reach the library" );
		CHECK26( FAULTS || !usable( n ) || ( ( ret != NULL ) == ( lib_result == 1 ) ), "the library's digest is not returned" );
		drop( ret );
		balanced( NULL );
	}
	REACHED();
}
#elif defined( PART_CONTEXT )
static CONTEXT object;
void harness( void )
{
	int k, op, r, before, initialized = 0;
	PyObject *ret, *pending;

	set_up();
	TYPE.tp_free = t_tp_free;
	object.ob_base.ob_refcnt = 1;
	object.ob_base.ob_type = &TYPE;
	the_object = (PyObject *) &object;
	/* new objects are all zeros */
	for( k = 0; k < CALLS; k++ )
	{
		op = (int) ndrange( 0, 2 );
		before = context_index( THE_CONTEXT( &object ) );
		if( op == 0 )
		{
			lib_calls = 0;
			CHECK26( TYPE.tp_init == (initproc) CAT( pyhmac_, ALG, _context_init ), "objects are initialized by another type's function" );
			r = CAT( pyhmac_, ALG, _context_init )( &object );
			CHECK27( ( r == 0 && exc_type == NULL ) || ( r == -1 && exc_type != NULL ), "initialization returns success with an exception set, or failure without one" );
			balanced( NULL );
			CHECK26( ( FAULTS && r != 0 ) || ( lib_calls == 1 && lib_op == L_INITIALIZE && lib_alg == ALGID ), "initialization does not ask the library for one context" );
			CHECK26( FAULTS || ( r == 0 ) == ( lib_result == 1 ), "initialization does not report what the library did" );
			CHECK26( r != 0 || ( context_index( THE_CONTEXT( &object ) ) == contexts - 1 ), "initialization does not start a new context" );
			if( r == 0 )
				initialized = 1;
			exc_clear();
		}
		else if( op == 1 )
		{
			names( 1 );
			ret = call( TYPE.tp_methods, "update", (PyObject *) &object, 1 );
			one( ret );
			the_data( 1, L_UPDATE );
			CHECK26( lib_calls == 0 || lib_context == before, "another context is updated" );
			CHECK26( ret == NULL || ( ret == &_Py_NoneStruct && lib_calls == 1 && lib_result == 1 ), "an update that failed is reported as done" );
			CHECK26( FAULTS || !usable( 1 ) || lib_calls == 1, "usable arguments do not reach the library" );
			CHECK26( FAULTS || !usable( 1 ) || ( ( ret != NULL ) == ( lib_result == 1 ) ), "an update that was done is reported as failed" );
			drop( ret );
		}
		else
		{
			ret = call( TYPE.tp_methods, "finalize", (PyObject *) &object, 0 );
			one( ret );
			CHECK26( lib_calls == 0 || ( lib_calls == 1 && lib_op == L_FINALIZE && lib_alg == ALGID && lib_context == before ), "another function of the library is called" );
			digest_returned( ret );
			CHECK26( FAULTS || !initialized || lib_calls == 1, "finalizing does not reach the library" );
			CHECK26( FAULTS || !initialized || ( ( ret != NULL ) == ( lib_result == 1 ) ), "the library's digest is not returned" );
			drop( ret );
		}
		balanced( NULL );
		CHECK27( object.ob_base.ob_refcnt == 1, "the object gains or loses a reference" );
		CHECK27( live_contexts() <= 1, "a context is never released" );
		CHECK27( live_contexts() == ( THE_CONTEXT( &object ) != NULL ), "the object has lost its context or keeps one that was released" );
	}
	/* the last reference goes, perhaps while an exception is being handled */
	pending = NULL;
	if( ndbool() )
	{
		exc_set( PyExc_KeyError );
		pending = PyExc_KeyError;
	}
	lib_free_failed = 0;
	Py_DecRef( (PyObject *) &object );
	CHECK27( tp_frees == 1, "the object's memory is not released exactly once" );
	CHECK27( live_contexts() == 0, "the object's context is never released" );
	CHECK27( lib_free_failed || exc_type == pending, "releasing an object changes the exception that is set" );
	balanced( NULL );
	(void) initialized; (void) before; (void) r; (void) pending;
	REACHED();
}
#elif defined( PART_NEW )
void harness( void )
{
	PyObject *ret;

	set_up();
	TYPE.tp_free = t_tp_free;
	ret = CAT( pyhmac_, ALG, _context_new )();
	one( ret );
	CHECK27( live_contexts() == ( ret != NULL ), "a context is never released, or the new object has none" );
	if( ret != NULL )
	{
		CHECK27( ret->ob_refcnt == 1, "the object returned has not exactly one reference" );
		Py_DecRef( ret );
		CHECK27( tp_frees == 1, "the object's memory is not released exactly once" );
	}
	else
		CHECK27( tp_frees == context_deallocs && made.ob_base.ob_refcnt == 0, "an object that could not be made is never released" );
	CHECK27( live_contexts() == 0, "the object's context is never released" );
	CHECK27( error_live == 0, "an error of the library is never released" );
	REACHED();
}
#elif defined( PART_ERRORS )
void harness( void )
{
	libcerror_error_t *error = NULL;
	int which, with_error = 0, set = 0;
	const char *format;

	set_up();
	which = PART_ERRORS;
#if defined( NO_FORMAT )
	format = NULL;
#else
	format = "%s: a message.";
#endif
	if( which != 2 )
	{
		/* an exception is to be fetched */
		exc_set( PyExc_KeyError );
		if( ndbool() )
			exc_value = new_object( &other_type );
	}
	if( which == 0 )
	{
		pyhmac_error_fetch( &error, 1, 2, format, "function" );
		CHECK27( error != NULL || exc_type != NULL, "an error that was to be fetched is lost" );
		CHECK27( error == NULL || exc_type == NULL, "an exception that was fetched, or another, is still set" );
		libcerror_error_free( &error );
	}
	else if( which == 1 )
	{
		pyhmac_error_fetch_and_raise( PyExc_RuntimeError, format, "function" );
		CHECK27( exc_type != NULL, "an error is not raised" );
	}
	else
	{
		with_error = ndbool();
		if( with_error )
			new_error( &error );
		pyhmac_error_raise( error, PyExc_RuntimeError, format, "function" );
		CHECK27( exc_type != NULL, "an error is not raised" );
		CHECK27( error_live == with_error, "an error is released that belongs to the caller" );
		libcerror_error_free( &error );
	}
	exc_clear();
	balanced( NULL );
	(void) set;
	REACHED();
}
#elif defined( PART_MODULE )
PyMODINIT_FUNC PyInit_pyhmac( void );
void harness( void )
{
	PyObject *ret;
	PyTypeObject *t[ 5 ] = { &pyhmac_md5_context_type_object, &pyhmac_sha1_context_type_object, &pyhmac_sha224_context_type_object, &pyhmac_sha256_context_type_object, &pyhmac_sha512_context_type_object };
	static const char *n[ 5 ] = { "md5_context", "sha1_context", "sha224_context", "sha256_context", "sha512_context" };
	int i, k, found;

	set_up();
	for( i = 0; i < 5; i++ )
		( (PyObject *) t[ i ] )->ob_refcnt = NONE_COUNT;
	ret = PyInit_pyhmac();
	one( ret );
	if( ret != NULL )
	{
		CHECK27( ret == &module_object && module_live && module_object.ob_refcnt == 1, "the module returned has not exactly one reference" );
		for( i = 0; i < 5; i++ )
		{
			found = 0;
			for( k = 0; k < 5; k++ )
				if( k < module_added && module_member[ k ] == (PyObject *) t[ i ] && same( module_name[ k ], n[ i ] ) )
					found++;
			CHECK26( found == 1, "the module lacks a context type or has it under another name" );
			CHECK26( t[ i ]->tp_new == PyType_GenericNew && types_ready == 5, "a context type cannot make objects" );
			CHECK26( t[ i ]->tp_basicsize >= (Py_ssize_t) sizeof( pyhmac_md5_context_t ), "a context type's objects are too small" );
			CHECK27( ( (PyObject *) t[ i ] )->ob_refcnt == NONE_COUNT + 1, "a context type gains or loses a reference" );
		}
	}
	else
	{
		CHECK27( !module_live, "the module is never released after a failure" );
		for( i = 0; i < 5; i++ )
			CHECK27( ( (PyObject *) t[ i ] )->ob_refcnt == NONE_COUNT, "a context type gains or loses a reference" );
	}
	(void) found;
	REACHED();
}
#elif defined( PART_VERSION )
void harness( void )
{
	PyObject *ret;

	set_up();
	names( 1 );
	ret = call( pyhmac_module_definition.m_methods, "get_version", &module_object, 0 );
	one( ret );
	CHECK26( ret == NULL || ( decode_text == version_text && decode_size == (Py_ssize_t) sizeof version_text - 1 ), "another version is returned than the library's" );
	CHECK26( FAULTS || ret != NULL, "no version is returned" );
	drop( ret );
	balanced( NULL );
	REACHED();
}
#endif
