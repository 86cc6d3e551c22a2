PROPERTY = "C26"
FILE = "pyhmac/pyhmac_sha512.c"
OLD = """	static char *keyword_list[] = { "key", "data", NULL };"""
NEW = """	static char *keyword_list[] = { "data", "key", NULL };"""
NEEDS = "a call with keyword arguments"
BREAKS = "key and data are exchanged"
SOURCES = ["pyhmac/pyhmac.c", "pyhmac/pyhmac_error.c"] + [x % a for a in ("md5", "sha1", "sha224", "sha256", "sha512") for x in ("pyhmac/pyhmac_%s.c", "pyhmac/pyhmac_%s_context.c", "libhmac/libhmac_%s.c", "libhmac/libhmac_%s_context.c")] + ["libhmac/libhmac_support.c"]
LOCAL = False

PY = '''
import hmac, pyhmac, sys
want = hmac.new(b"k" * 200, b"some data", "sha512").digest()
if pyhmac.sha512_calculate_hmac(b"k" * 200, b"some data") != want:
    sys.exit(2)
if pyhmac.sha512_calculate_hmac(data=b"some data", key=b"k" * 200) != want:
    print("key and data are exchanged")
    sys.exit(1)
'''
