PROPERTY = "C27"
FILE = "pyhmac/pyhmac_sha224_context.c"
OLD = """		 "%s: unable to finalize SHA224 context.",
		 function );

		libcerror_error_free(
		 &error );

		return( NULL );
"""
NEW = """		 "%s: unable to finalize SHA224 context.",
		 function );

		Py_IncRef(
		 Py_None );

		return( Py_None );
"""
NEEDS = "the library fails to finalize"
BREAKS = "None is returned with an exception set, and the library error is leaked"
SOURCES = ["pyhmac/pyhmac.c", "pyhmac/pyhmac_error.c"] + [x % a for a in ("md5", "sha1", "sha224", "sha256", "sha512") for x in ("pyhmac/pyhmac_%s.c", "pyhmac/pyhmac_%s_context.c", "libhmac/libhmac_%s.c", "libhmac/libhmac_%s_context.c")] + ["libhmac/libhmac_support.c"]
LOCAL = False

PY = '''
import pyhmac, sys
c = pyhmac.sha224_context.__new__(pyhmac.sha224_context)
try:
    c.finalize()
except SystemError:
    print("a value and an exception")
    sys.exit(1)
except Exception:
    sys.exit(0)
sys.exit(1)
'''
