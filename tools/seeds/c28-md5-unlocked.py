PROPERTY = "C28"
FILE = "pyhmac/pyhmac_md5_context.c"
OLD = """	Py_END_ALLOW_THREADS

	if( result != 1 )
	{
		pyhmac_error_raise(
		 error,
		 PyExc_IOError,
		 "%s: unable to update MD5 context from data.",
		 function );

		libcerror_error_free(
		 &error );

		return( NULL );
	}
"""
NEW = """	if( result != 1 )
	{
		PyErr_Format(
		 PyExc_IOError,
		 "%s: unable to update MD5 context from data.",
		 function );

		libcerror_error_free(
		 &error );
	}
	Py_END_ALLOW_THREADS

	if( result != 1 )
	{
		return( NULL );
	}
"""
NEEDS = "the library refuses the update"
BREAKS = "the exception is raised without holding the interpreter lock"
SOURCES = ["pyhmac/pyhmac.c", "pyhmac/pyhmac_error.c"] + [x % a for a in ("md5", "sha1", "sha224", "sha256", "sha512") for x in ("pyhmac/pyhmac_%s.c", "pyhmac/pyhmac_%s_context.c", "libhmac/libhmac_%s.c", "libhmac/libhmac_%s_context.c")] + ["libhmac/libhmac_support.c"]
LOCAL = False

PY = '''
import pyhmac, sys
c = pyhmac.md5_context.__new__(pyhmac.md5_context)
try:
    c.update(b"abc")
except IOError:
    sys.exit(0)
sys.exit(1)
'''
