"""C26-C28: the Python binding on CBMC, with a model of the interpreter's C interface."""
import os, glob
import build, cbmc
from check import Check
from tools import part, H, TECH, CADICAL

ALGS = build.ALGOS


def python_h():
    for d in sorted(glob.glob("/usr/include/python3*"), reverse=True):
        if os.path.exists(os.path.join(d, "Python.h")):
            return d
    return "/usr/include/python3"


def flags(h):
    return lambda d: build.cflags(d, "builtin", local=False) + ["-ULIBHMAC_DLL_EXPORT", "-I" + os.path.join(build.REPO, "pyhmac"), "-I" + python_h()]


def call(prop, name, defs, alg="md5", faults=True, timeout=400):
    src = [os.path.join(build.REPO, "pyhmac", f) for f in ["pyhmac.c", "pyhmac_error.c"] + ["pyhmac_%s%s.c" % (a, s) for a in ALGS for s in ("", "_context")]]
    d = ["PROP=%d" % prop, "ALG=" + alg] + (["FAULTS=1"] if faults else []) + list(defs)
    u = ["read_format.0:130", "lib_digest.0:66", "PyBytes_FromStringAndSize.0:66", "same.0:24"]
    if "LONG_TEXT" in defs:
        u += ["strlen.0:2050", "PyOS_vsnprintf.0:2050", "libcerror_error_backtrace_sprint.0:2050", "pyhmac_error_raise.0:2050", "narrow_string_length.0:2050"]
    return cbmc.Harness(name + (", any call failing" if faults else ""), os.path.join(H, "pycall.c"), src, "builtin", defs=d, unwind=12, unwindset=u, raises=(20, 70, 260),
                        opts=CADICAL + ["--object-bits", "11"] + (["--max-field-sensitivity-array-size", "2048"] if "LONG_TEXT" in defs and "PART_ERRORS=2" in defs else []), timeout=timeout, flags=flags(None))


def finish(C, hs, history):
    C.map([(part, (h, C.work)) for h in hs])
    C.bounds = ["every method of the module and of the five context types; each argument bytes of any length, another object, one that claims to be bytes, or one whose inspection raises; given by position or by name",
                "context objects: every history of %d of initialize (again), update and finalize, initialized first or not, and then the release of the object, with or without an exception being handled" % history,
                "module set-up, object creation from C and the three error conversions, with messages of up to 4 characters, or cut off at the buffer's size"]
    C.outside = ["longer histories", "one context object used by several threads at once", "Python 2 and interpreters other than the one whose Python.h is installed", "the interpreter itself"]
    C.assumptions = ["CBMC's model of C on x86-64", "a model of the interpreter's C interface: reference counts (None and types counted like all else), the exception that is set, the interpreter lock; of libhmac and libcerror: any documented outcome"]
    return C


def history(tier):
    return 2 if tier == "quick" else 4


def C26(tier):
    C = Check("C26", tier, TECH)
    n = history(tier)
    hs = []
    for a in ALGS:
        for f in ((False,) if tier == "quick" else (False, True)):
            hs += [call(26, "%s of data" % a, ["KINDS", "CALLS=1", "PART_CALCULATE=1"], a, f), call(26, "%s of key and data" % a, ["KINDS", "CALLS=1", "PART_CALCULATE=2"], a, f),
                   call(26, "%s context" % a, ["KINDS", "CALLS=%d" % n, "PART_CONTEXT"], a, f, 800)]
    hs += [call(26, "version", ["PART_VERSION"], faults=f) for f in (False, True)] + [call(26, "module", ["PART_MODULE"], faults=f) for f in (False, True)]
    return finish(C, hs, n)


def C27(tier):
    C = Check("C27", tier, TECH)
    n = history(tier)
    hs = []
    for a in ALGS:
        hs += [call(27, "%s of data" % a, ["KINDS", "CALLS=1", "PART_CALCULATE=1"], a), call(27, "%s of key and data" % a, ["KINDS", "CALLS=1", "PART_CALCULATE=2"], a),
               call(27, "%s context" % a, ["KINDS", "CALLS=%d" % n, "PART_CONTEXT"], a, True, 800), call(27, "%s context made from C" % a, ["PART_NEW"], a)]
    hs += [call(27, "version", ["PART_VERSION"]), call(27, "module", ["PART_MODULE"])]
    for i, nm in enumerate(("fetch", "fetch and raise", "raise")):
        hs += [call(27, "error conversion: " + nm, ["PART_ERRORS=%d" % i]), call(27, "error conversion without a message: " + nm, ["PART_ERRORS=%d" % i, "NO_FORMAT"]),
               call(27, "error conversion, long messages: " + nm, ["PART_ERRORS=%d" % i, "LONG_TEXT"])]
    return finish(C, hs, n)


def C28(tier):
    C = Check("C28", tier, TECH)
    n = history(tier)
    hs = []
    for a in ALGS:
        hs += [call(28, "%s of data" % a, ["KINDS", "CALLS=1", "PART_CALCULATE=1"], a), call(28, "%s of key and data" % a, ["KINDS", "CALLS=1", "PART_CALCULATE=2"], a),
               call(28, "%s context" % a, ["KINDS", "CALLS=%d" % n, "PART_CONTEXT"], a, True, 800), call(28, "%s context made from C" % a, ["PART_NEW"], a)]
    hs += [call(28, "version", ["PART_VERSION"]), call(28, "module", ["PART_MODULE"])] + [call(28, "error conversion: " + nm, ["PART_ERRORS=%d" % i]) for i, nm in enumerate(("fetch", "fetch and raise", "raise"))]
    return finish(C, hs, n)


def run(pid, tier):
    return globals()[pid](tier)
