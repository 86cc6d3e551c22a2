PROPERTY = "C26"
FILE = "pyhmac/pyhmac_sha1_context.c"
OLD = """	data_size = PyBytes_Size(
	             bytes_object );
"""
NEW = """	data_size = ( data != NULL ) ? (Py_ssize_t) strlen( data ) : -1;
"""
NEEDS = "data that holds a zero byte"
BREAKS = "the data is cut at the first zero byte"
SOURCES = ["pyhmac/pyhmac.c", "pyhmac/pyhmac_error.c"] + [x % a for a in ("md5", "sha1", "sha224", "sha256", "sha512") for x in ("pyhmac/pyhmac_%s.c", "pyhmac/pyhmac_%s_context.c", "libhmac/libhmac_%s.c", "libhmac/libhmac_%s_context.c")] + ["libhmac/libhmac_support.c"]
LOCAL = False

PY = '''
import hashlib, pyhmac, sys
c = pyhmac.sha1_context()
c.update(b"ab\\0cd")
if c.finalize() != hashlib.sha1(b"ab\\0cd").digest():
    print("data is cut at a zero byte")
    sys.exit(1)
'''
