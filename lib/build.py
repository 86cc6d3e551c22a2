"""Generated headers and compilation of /repo's working tree in the build configurations we check."""
import os, re, subprocess, sys, shutil, tempfile, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(VERIF, "stubs")
CLANG = "/usr/bin/clang"
OPT = "/usr/bin/opt"
ALGOS = ["md5", "sha1", "sha224", "sha256", "sha512"]
INFO = {  # hash size, block size
    "md5": (16, 64), "sha1": (20, 64), "sha224": (28, 64), "sha256": (32, 64), "sha512": (64, 128)}

BASE = """
#define PACKAGE "libhmac"
#define PACKAGE_NAME "libhmac"
#define VERSION "%(version)s"
#define STDC_HEADERS 1
#define HAVE_ERRNO_H 1
#define HAVE_FCNTL_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIMITS_H 1
#define HAVE_SIGNAL_H 1
#define HAVE_STDARG_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRING_H 1
#define HAVE_STRINGS_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE_WCHAR_H 1
#define HAVE_MALLOC 1
#define HAVE_REALLOC 1
#define HAVE_FREE 1
#define HAVE_MEMCMP 1
#define HAVE_MEMCPY 1
#define HAVE_MEMSET 1
#define HAVE_MEMCHR 1
#define HAVE_MEMRCHR 1
#define HAVE_STRLEN 1
#define HAVE_STRCHR 1
#define HAVE_STRCPY 1
#define HAVE_STRNCPY 1
#define HAVE_STRCAT 1
#define HAVE_STRNCAT 1
#define HAVE_STRCASECMP 1
#define HAVE_STRNCASECMP 1
#define HAVE_STRNCMP 1
#define HAVE_STRCMP 1
#define HAVE_STRRCHR 1
#define HAVE_STRSTR 1
#define HAVE_SNPRINTF 1
#define HAVE_VSNPRINTF 1
#define HAVE_PRINTF_JD 1
#define HAVE_SETVBUF 1
#define HAVE_FCLOSE 1
#define HAVE_FOPEN 1
#define HAVE_CLOSE 1
#define HAVE_SETLOCALE 1
#define HAVE_LOCALE_H 1
#define HAVE_WCSLEN 1
#define HAVE_WCSCHR 1
#define HAVE_WCSCMP 1
#define HAVE_WCSNCMP 1
#define HAVE_WCSCPY 1
#define HAVE_WCSNCPY 1
#define HAVE_WCSRCHR 1
#define HAVE_WMEMCMP 1
#define HAVE_WMEMCPY 1
#define HAVE_SWPRINTF 1
#define SIZEOF_INT 4
#define SIZEOF_LONG 8
#define SIZEOF_SIZE_T 8
"""
EVP = """
#define HAVE_LIBCRYPTO 1
#define HAVE_OPENSSL_EVP_H 1
#define HAVE_EVP_MD5 1
#define HAVE_EVP_SHA1 1
#define HAVE_EVP_SHA224 1
#define HAVE_EVP_SHA256 1
#define HAVE_EVP_SHA512 1
"""
CONFIGS = {
    # name: (config.h text, folded loops, description)
    "builtin": ("", False, "built-in code, unrolled loops (the default without OpenSSL)"),
    "folded": ("", True, "built-in code, rolled loops (LIBHMAC_UNFOLLED_LOOPS off)"),
    "evp": (EVP + "#define HAVE_EVP_DIGESTINIT_EX2 1\n", False, "OpenSSL 3 EVP back end (what configure selects here)"),
    "evp1": (EVP, False, "OpenSSL 1.1 EVP back end (EVP_DigestInit_ex)"),
    "evp0": (EVP + "#define HAVE_EVP_MD_CTX_INIT 1\n#define HAVE_EVP_MD_CTX_CLEANUP 1\n", False,
             "OpenSSL 1.0 EVP back end (embedded EVP_MD_CTX)"),
    "legacy": ("#define HAVE_LIBCRYPTO 1\n#define HAVE_OPENSSL_MD5_H 1\n#define HAVE_OPENSSL_SHA_H 1\n", False,
               "OpenSSL low-level MD5_/SHA*_ back end"),
}


class BuildError(Exception):
    pass


def version():
    try:
        t = open(os.path.join(REPO, "configure.ac")).read()
        return re.search(r"\[(\d{8})\]", t).group(1)
    except Exception:
        return "20241028"


def subst(text):
    text = text.replace("@VERSION@", version()).replace("@PACKAGE@", "libhmac")
    for k in ("SYS_TYPES_H", "INTTYPES_H", "STDINT_H", "WCHAR_H"):
        text = text.replace("@HAVE_%s@" % k, "1")
    return re.sub(r"@HAVE_[A-Z0-9_]+@", "0", text)


def gen_headers(d, cfg, extra="", wide=False, getopt=True):
    """Write config.h and the configure-generated headers into d."""
    os.makedirs(os.path.join(d, "libhmac"), exist_ok=True)
    body, folded, _ = CONFIGS[cfg]
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write("#if !defined( VERIF_CONFIG_H )\n#define VERIF_CONFIG_H\n" + BASE % {"version": version()} + body
                + ("#define HAVE_GETOPT 1\n" if getopt else "") + ("#define SIZEOF_WCHAR_T 2\n" if wide else "") + extra + "\n#endif\n")
    R = REPO
    for src, dst in (("common/types.h.in", "types.h"), ("include/libhmac.h.in", "libhmac.h"),
                     ("include/libhmac/definitions.h.in", "libhmac/definitions.h"),
                     ("include/libhmac/features.h.in", "libhmac/features.h"),
                     ("include/libhmac/types.h.in", "libhmac/types.h"),
                     ("libhmac/libhmac_definitions.h.in", "libhmac_definitions.h")):
        t = subst(open(os.path.join(R, src)).read())
        if src.endswith("libhmac_definitions.h.in") and folded:
            t = re.sub(r"(?m)^#define\s+LIBHMAC_UNFOLLED_LOOPS.*$", "", t)
        if src == "common/types.h.in" and wide:
            t = t.replace("#if defined( WINAPI ) && ( defined( _UNICODE ) || defined( UNICODE ) )", "#if 1", 1)
        with open(os.path.join(d, dst), "w") as f:
            f.write(t)


def cflags(d, cfg, local=True):
    fl = ["-DHAVE_CONFIG_H=1", "-DLIBHMAC_DLL_EXPORT=1", "-I" + d, "-I" + os.path.join(STUBS, "include")]
    if local:
        fl.append("-DHAVE_LOCAL_LIBHMAC=1")
    if cfg == "evp0":
        fl.append("-I" + os.path.join(STUBS, "openssl10"))
    fl += ["-I" + os.path.join(REPO, x) for x in ("include", "common", "libhmac")]
    fl += ["-Wno-deprecated-declarations", "-w"]
    return fl


def run(cmd, timeout=300, cwd=None, env=None, inp=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env, input=inp)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def must(cmd, timeout=300, cwd=None):
    rc, o, e = run(cmd, timeout, cwd)
    if rc != 0:
        raise BuildError("command failed (%d): %s\n%s%s" % (rc, " ".join(cmd), o[-2000:], e[-4000:]))
    return o


UBSAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return,vla-bound,bool", "-fsanitize-trap=all"]


def to_ir(src, d, cfg, out, flags=None, extra=()):
    raw = out + ".raw.ll"
    must([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-emit-llvm", "-S", "-g0",
          "-U_FORTIFY_SOURCE"] + list(extra) + (flags or cflags(d, cfg)) + [src, "-o", raw])
    must([OPT, "-S", "-passes=mem2reg", raw, "-o", out])
    return open(out).read()


def lib_sources(algos=ALGOS):
    out = []
    for a in algos:
        out += [os.path.join(REPO, "libhmac", "libhmac_%s.c" % a), os.path.join(REPO, "libhmac", "libhmac_%s_context.c" % a)]
    out.append(os.path.join(REPO, "libhmac", "libhmac_byte_stream.c"))
    return [f for f in out if os.path.exists(f)]


def native_lib(d, cfg, out, algos=ALGOS, cc="/usr/bin/gcc", extra=None):
    """Real code as a shared library for replays (with the stand-in libcerror)."""
    cmd = [cc, "-shared", "-fPIC", "-g"] + (extra or ["-O1"]) + cflags(d, cfg) + lib_sources(algos) + \
          [os.path.join(STUBS, "libcerror_native.c"), "-o", out]
    if cfg in ("evp", "evp1", "legacy"):
        cmd.append("-lcrypto")
    must(cmd)
    return out
