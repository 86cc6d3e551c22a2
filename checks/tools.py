"""C14 and the tool's properties (C16-C25) on CBMC."""
import os
import build, cbmc
from cbmc import Harness
from check import Check

H = os.path.join(build.VERIF, "harness")
TECH = "bounded model checking of the real C code with CBMC (SAT), counterexamples replayed natively"


def part(h, work, fallback=None, key=None):
    return cbmc.decide(h, work, key=key, fallback=fallback)


def tool_flags(h):
    def f(d):
        return build.cflags(d, h["cfg"], local=False) + ["-ULIBHMAC_DLL_EXPORT", "-I" + os.path.join(build.REPO, "hmactools"), "-Dmalloc=t_malloc", "-Dfree=t_free",
               "-Drealloc=t_realloc", "-Dcalloc=t_calloc"] + (["-fshort-wchar"] if h.get("wide") else []) + list(h.get("more", ()))
    return f


def tool(name, src, sources, more=(), wide=False, **kw):
    """A harness over files of hmactools/."""
    return Harness(name, os.path.join(H, src), [os.path.join(build.REPO, "hmactools", s) for s in sources], "builtin", wide=wide,
                   flags=tool_flags({"cfg": "builtin", "wide": wide, "more": more}), **kw)


PROMOTE = ["-include", os.path.join(H, "promote.h")]
CADICAL = ["--sat-solver", "cadical"]
ENV_LOOPS = ["t_fprintf.%d:210" % i for i in range(3)] + ["ctx_finalize.0:70", "digest_hash_copy_to_string.0:70", "is_digest.0:70",
             "line_alg.0:9", "line_alg.1:9", "out_string.0:40", "harness.0:20", "harness.1:20", "harness.2:6", "harness.3:6", "split_string.0:44", "t_fputs.0:210", "memchr.0:12", "memcmp.0:20",
             "memset.0:400", "shape.0:40", "shape.1:40", "denotes.0:40", "denotes.1:40", "denotes.2:9", "strncmp.0:10", "expect.0:20", "expect.1:6", "names_alg.0:20", "strlen.0:40", "hmacsum_main.0:12", "byte_size_string_convert.0:28", "byte_size_string_convert.1:28", "byte_size_string_convert.2:28"] + ["hmactools_getopt.%d:12" % i for i in range(4)]
ENV = PROMOTE + ["-DPROMOTE_FPRINTF=1", "-DVERIF_MOMENTS=1"]


def env(name, src, sources, defs, unwind=4, loops=(), more=(), timeout=200):
    return tool(name, src, sources, defs=defs, more=ENV + list(more), headers={"getopt": False, "extra": '#define PACKAGE_BUGREPORT "b"\n'}, unwind=unwind, unwindset=list(loops) + ENV_LOOPS, raises=(20, 70, 260),
                opts=CADICAL + ["--object-bits", "11", "--max-field-sensitivity-array-size", "256"], timeout=timeout)


def C14(tier):
    C = Check("C14", tier, TECH)
    jobs = []
    for p in ("TO", "FROM", "ROT", "BULK"):
        # conversions between widths are these macros' business
        ck = ["--bounds-check", "--pointer-check", "--div-by-zero-check", "--signed-overflow-check"]
        jobs.append((part, (Harness("conversions %s" % p, os.path.join(H, "bytes.c"), [], "builtin", ["PART_" + p], unwind=130, checks=ck, timeout=400), C.work)))
    C.map(jobs)
    C.bounds = ["every macro of common/byte_stream.h and libhmac/libhmac_byte_stream.h: all byte values, all previous contents of the destination, all indices, all values; rotations by every distance from 1 to width-1"]
    C.outside = ["rotation by 0 or by the width and more (a shift by the full width is not defined)", "big-endian hosts"]
    C.assumptions = ["CBMC's model of C on x86-64"]
    return C


def C16(tier):
    C = Check("C16", tier, TECH)
    ns = [0, 1, 2, 16, 20, 28, 32, 64] if tier == "quick" else list(range(0, 70))
    jobs = []
    for w in (False, True):
        nm = " (wide characters)" if w else ""
        for k in ns:
            jobs.append((part, (tool("hex text of %d bytes%s" % (k, nm), "hex.c", ["digest_hash.c"], wide=w, defs=["MAXN=%d" % k], unwind=2 * k + 4), C.work)))
        jobs.append((part, (tool("refusals" + nm, "hex.c", ["digest_hash.c"], wide=w, defs=["PART_REFUSE"], unwind=2), C.work)))
    C.map(jobs)
    C.bounds = ["digests of %s bytes, all byte values, at any position; text buffers of any size that can hold the text, and of any size that cannot; narrow and wide characters" % ", ".join(map(str, ns))]
    C.outside = ["other digest sizes (no digest has them)"]
    C.assumptions = ["CBMC's model of C on x86-64"]
    return C


SHAPES_QUICK = ["", "?", "??", "???", "????", "9.9999?B", "99.99 ?iB", "180143985094819999K", "18446744073709999kB", "1759218604449999 MiB", "1844674407370955999",
                "18446744073709551999?", "99999EiB", "99.99EB", "9.9?ZiB", "99.9YB", "0.99ziB", "9999?i?", "99.99?", "9999.99P"]
SHAPES_MORE = ["?????", "9999999?", "99.99 ?B", "99.99???", "9999 ?B", "99999?iB", "9 ???", "9.9???", "17179869189999GB", "16777215999 TiB", "18446999PB", "0.9?YB", "999999.99m", "9?9?9"]


def C17(tier):
    C = Check("C17", tier, TECH)
    t = 150 if tier == "quick" else 800
    sh = SHAPES_QUICK + ([] if tier == "quick" else SHAPES_MORE)
    jobs = []
    for w in (False, True):
        nm = " (wide characters)" if w else ""
        for x in (["9.9?kiB", "9999.99P", "9?", "???"] if w and tier == "quick" else sh):
            jobs.append((part, (tool("convert '%s'%s" % (x, nm), "sizetext.c", ["byte_size_string.c"], wide=w, defs=['SHAPE="%s"' % x], more=PROMOTE, unwind=28, opts=CADICAL, timeout=t), C.work)))
        jobs.append((part, (tool("arguments" + nm, "sizetext.c", ["byte_size_string.c"], wide=w, defs=["PART_ARGS"], more=PROMOTE, unwind=28, opts=CADICAL, timeout=t), C.work)))
    C.map(jobs)
    C.bounds = ["every text of each of these shapes (9: any digit, ?: any character 1 to 127, .: the locale's decimal point, which may be . or ,): " + ", ".join("'%s'" % x for x in sh),
                "every previous value of the result; narrow and wide characters"]
    C.outside = ["other shapes and longer texts", "text after a complete unit (not looked at)", "numbers without digits (nothing is stated)"]
    C.assumptions = ["CBMC's model of C on x86-64", "libclocale returns the decimal point or fails"]
    return C


def C18(tier):
    C = Check("C18", tier, TECH)
    t = 200 if tier == "quick" else 840
    jobs = []
    for w in (False, True):
        nm = " (wide characters)" if w else ""
        for u in (1000, 1024):
            for f in range(7):
                if w:
                    # CBMC takes wide literals as 4-byte characters
                    continue
                hard = u == 1000 and f >= 4
                a = ["UNITS=%d" % u, "FACTOR=%d" % f]
                if not hard or tier != "quick":
                    jobs.append((part, (tool("format %d^%d and read back%s" % (u, f, nm), "sizetext.c", ["byte_size_string.c"], wide=w, defs=a + ["READBACK=1"], more=PROMOTE, unwind=28, opts=CADICAL, timeout=t), C.work)))
                if hard:
                    jobs.append((part, (tool("format %d^%d%s" % (u, f, nm), "sizetext.c", ["byte_size_string.c"], wide=w, defs=a, more=PROMOTE, unwind=28, opts=CADICAL, timeout=t), C.work)))
        jobs.append((part, (tool("arguments" + nm, "sizetext.c", ["byte_size_string.c"], wide=w, defs=["PART_ARGS"], more=PROMOTE, unwind=28, opts=CADICAL, timeout=t), C.work)))
    C.map(jobs)
    C.bounds = ["every 64-bit size, with units of 1000 and of 1024, text buffers of 9 to 16 characters, every decimal point, printing that works or fails; reading back decided for every size except (quick) those of 1000^4 and more"]
    C.outside = ["units other than 1000 and 1024", "larger text buffers"]
    C.assumptions = ["CBMC's model of C on x86-64", "a model of snprintf"]
    C.outside.append("wide characters (only their refusals are decided)")
    return C


def C24(tier):
    C = Check("C24", tier, TECH)
    jobs = []
    o = '"d:hp:vV"'
    L = [(2, 5, o), (3, 3, o), (4, 3, o), (2, 3, None), (3, 2, None)]
    if tier != "quick":
        L += [(4, 4, o), (6, 2, o), (3, 6, o), (2, 10, o), (3, 3, None), (2, 5, None), (5, 3, o)]
    for n, l, x in L:
        d = ["NARGS=%d" % n, "MAXL=%d" % l] + (["OPTIONS=" + x] if x else [])
        jobs.append((part, (tool("%d arguments of up to %d characters, options %s" % (n, l, x or "any"), "getopt.c", ["hmactools_getopt.c"], defs=d, headers={"getopt": False},
                                 unwind=max(10, n * l + 2), opts=CADICAL, timeout=300 if tier == "quick" else 850), C.work)))
    C.map(jobs)
    C.bounds = ["argument vectors of up to %s: every character 1 to 255; the tool's options and (up to 5 characters) every option string" % ", ".join("%d arguments of %d characters%s" % (n, l, "" if x else " (any options)") for n, l, x in L)]
    C.outside = ["longer vectors and arguments", "arguments that start with -- and go on (no long options exist: their meaning is not specified)", "wide characters",
                 "builds with the C library's getopt (the tool then uses that one)"]
    C.assumptions = ["CBMC's model of C on x86-64"]
    return C


HANDLE = ["sum_handle.c", "digest_hash.c", "byte_size_string.c"]
TOOL = ["hmacsum.c"] + HANDLE + ["hmactools_output.c", "hmactools_signal.c", "hmactools_getopt.c"]
FIVE = "sha1,sha224,sha256,sha512"
ENV_ASSUME = ["CBMC's model of C on x86-64", "models of the environment the tool calls: files (any size, any content, reads of any length up to what was asked), digest contexts that record what they are given, "
              "split strings, standard streams, signals and the locale; each call may fail where failures are explored"]


def want(types):
    """The selection an option text stands for, as the tool documents it: MD5 and whatever is named."""
    w = ["1", "0", "0", "0", "0"]
    for t in types.split(","):
        t = t.lower().replace("-", "").replace("_", "")
        if t in ("sha1", "sha224", "sha256", "sha512"):
            w[["md5", "sha1", "sha224", "sha256", "sha512"].index(t)] = "1"
    return "WANT=" + ",".join(w)


def handle(types, reads, buf="BUFFER_MAX=1000000000000ULL", more=(), timeout=800):
    d = [want(types), "MAX_READS=%d" % reads, buf] + (['TYPES="%s"' % types] if types else []) + list(more)
    n = "handle: %s, up to %d reads%s" % ("md5" + ("," + types if types else ""), reads, "".join(", " + m.lower().replace("_", " ") for m in more))
    return env(n, "handle.c", HANDLE, d, unwind=max(4, reads + 2, types.count(",") + 3), timeout=timeout)


def whole(args, more=(), types="", buf=64, reads=2, timeout=800, operand=None):
    """The whole tool with these arguments."""
    a = ["hmacsum"] + list(args)
    if operand is None:
        operand = len(a) - 1
    d = [want(types), "MAX_READS=%d" % reads, "BUFFER=%d" % buf, "ARGS=" + ",".join('"%s"' % x for x in a), "OPERAND=%d" % operand] + (["BIG_BUFFERS=1"] if buf > 1024 else []) + list(more)
    n = "hmacsum %s%s" % (" ".join(args), "".join(", " + m.lower().replace("_", " ") for m in more))
    return env(n, "main.c", TOOL, d, unwind=max(4, reads + 2, types.count(",") + 3), more=["-Dsignal=t_signal", "-Dclose=t_close", "-Dmain=hmacsum_main"], timeout=timeout)


def subsets():
    import itertools
    n = FIVE.split(",")
    return [",".join(c) for k in range(5) for c in itertools.combinations(n, k)]


def harnesses(C, hs):
    C.map([(part, (h, C.work)) for h in hs])
    C.assumptions = list(ENV_ASSUME)
    return C


def C19(tier):
    C = Check("C19", tier, TECH)
    hs = [handle(FIVE, 3), handle(FIVE, 2, more=["SIZE_WRONG"]), handle("", 6), handle("", 4, more=["SIZE_WRONG"]), handle("sha256", 4), whole(["f"], buf=32768, reads=3)]
    b = "up to 3 reads with all five algorithms, 6 with MD5 alone, 4 with MD5 and SHA-256"
    if tier != "quick":
        hs += [handle("", 16), handle(FIVE, 6), handle("sha1,sha512", 8), handle(FIVE, 5, more=["SIZE_WRONG"]), whole(["-d", FIVE, "f"], types=FIVE, buf=32768, reads=3)]
        b += "; further 16 reads with MD5 alone, 6 with all five algorithms"
    harnesses(C, hs)
    C.bounds = ["files of every size up to 2^64-1 and every content (one byte at an arbitrary offset is followed from the file to each digest), buffer sizes 1 to 10^12 and the default, reads of every length up to that asked for (at most what is left, or, SIZE_WRONG, any length whatever the size said): " + b]
    C.outside = ["files that take more reads than stated", "the digests themselves (C01 to C13)", "libcfile"]
    return C


def C20(tier):
    C = Check("C20", tier, TECH)
    hs = [handle("", 2, "BUFFER_MAX=64", ["FAULTS"]), handle(FIVE, 1, "BUFFER_MAX=64", ["FAULTS"]), handle("sha224", 1, "BUFFER_MAX=64", ["FAULTS"]),
          handle("sha512", 1, "BUFFER=16", ["FAULTS", "SIZE_WRONG"])]
    if tier != "quick":
        hs += [handle("", 4, "BUFFER_MAX=64", ["FAULTS", "SIZE_WRONG"]), handle("sha1", 2, "BUFFER_MAX=64", ["FAULTS"]), handle("sha256,sha512", 1, "BUFFER_MAX=64", ["FAULTS"]), handle("sha1,sha224", 1, "BUFFER_MAX=64", ["FAULTS"])]
    harnesses(C, hs)
    C.bounds = ["every combination of failing allocations, file, split string, digest and print calls over a handle's life (create, select, open, process, print, close or not, free), with MD5 alone, MD5 with another, and all five algorithms; up to %d reads" % (2 if tier == "quick" else 4)]
    C.outside = ["the order of calls other than that of the tool", "more reads"]
    return C


def C21(tier):
    C = Check("C21", tier, TECH)
    def names(n, m, more=()):
        return env("any %d names of up to %d characters%s" % (n, m, "".join(", " + x.lower() for x in more)), "types.c", HANDLE, ["SEGMENTS=%d" % n, "SEGMENT_MAX=%d" % m] + list(more), unwind=max(4, n + 1),
                   loops=["harness.0:%d" % (m + 2), "harness.1:%d" % (m + 2), "names_alg.0:%d" % (m + 2)], timeout=800)
    hs = [names(1, 12), names(3, 9), names(6, 9), names(1, 9, ["FAULTS=1"]), names(2, 8, ["FAULTS=1"]), names(2, 8, ["CALLS=2"])]
    hs += [handle(t, 1, "BUFFER=16") for t in subsets()]
    hs += [handle("SHA-512,sha_224,md5,x,SHA1,sha1", 1, "BUFFER=16"), handle(",sha256,", 1, "BUFFER=16")]
    if tier != "quick":
        hs += [names(12, 9), names(1, 60), names(4, 9, ["FAULTS=1"]), names(4, 9, ["CALLS=3"])]
    harnesses(C, hs)
    C.bounds = ["option texts that split into up to %d names, each of up to %d characters of any value (0 and comma apart); two calls on one handle; every failing call" % ((6, 12) if tier == "quick" else (12, 60)),
                "for each of the 16 sets of algorithms, and texts with repeated, unknown and empty names: the contexts started, updated and finalized and the lines printed"]
    C.outside = ["more or longer names", "how libcsplit splits (a model splits at each comma)"]
    return C


def C22(tier):
    C = Check("C22", tier, TECH)
    def text(x, more=()):
        return env("size text '%s'%s" % (x, "".join(", " + m.lower() for m in more)), "bufsize.c", HANDLE, ['SHAPE="%s"' % x] + list(more), timeout=200 if tier == "quick" else 800)
    sh = ["?", "??", "9 ??", "9999GiB", "8191??B", "9223372036854775999", "18446744073709551999", "8388607.99TiB", "922337203685477.99kB", "9007199254740991.9kiB", "999999999", "99???", "???"]
    if tier != "quick":
        sh += ["9999??", "????", "9.9?iB", "99999999999 ?B", "9223372036854999 k"]
    hs = [text(x) for x in sh] + [text("99kiB", ["FAULTS=1"])]
    hs += [whole(["-p", "5", "f"], buf=5, reads=3), whole(["-p0", "f"], ["EXPECT_FAILURE=1"], buf=0), whole(["-p", "x", "f"], ["EXPECT_FAILURE=1"], buf=0), whole(["-p", "9223372036854775808", "f"], buf=32768),
           whole(["-p", "99999999999999999999", "f"], ["EXPECT_FAILURE=1"], buf=0), whole(["-p", "1kB", "-p", "7", "f"], buf=7)]
    harnesses(C, hs)
    C.bounds = ["every text of each of these shapes (9: any digit, ?: any character 1 to 127, .: the decimal point, . or ,): " + ", ".join("'%s'" % x for x in sh) + "; every previous buffer size; failing calls",
                "the whole tool with a valid size, sizes of zero, over the maximum and over 64 bits, no size at all, and the option given twice"]
    C.outside = ["other shapes", "numbers without digits", "allocations of buffers of 2^55 bytes and more"]
    return C


def C23(tier):
    C = Check("C23", tier, TECH)
    hs = [whole(["-p64", "f"], ["INTERRUPTS=1", "FAULTS=1"]), whole(["-p64", "f"], ["INTERRUPTS=2"], reads=4), whole(["f"], ["INTERRUPTS=1"], buf=32768), whole(["-p64", "-d", "sha1", "f"], ["INTERRUPTS=1", "SIZE_WRONG=1"], types="sha1"),
          whole(["-p64", "-d", FIVE, "f"], ["INTERRUPTS=1", "PRINT_FAULTS=1"], types=FIVE)]
    if tier != "quick":
        hs += [whole(["-p64", "f"], ["INTERRUPTS=2", "FAULTS=1"]), whole(["-p64", "f"], ["INTERRUPTS=4"], reads=8), whole(["-p64", "-d", "sha256", "f"], ["INTERRUPTS=1", "FAULTS=1"], types="sha256", reads=1)]
    harnesses(C, hs)
    C.bounds = ["interrupts at every call the tool makes of its environment (before and after each allocation, release, file, digest, split, print and signal call), once or twice (thorough: up to four times), together with every failing call, and with files of any size"]
    C.outside = ["interrupts between two instructions that no call separates", "signals other than SIGINT", "a second interrupt inside the handler"]
    return C


def C25(tier):
    C = Check("C25", tier, TECH)
    hs = [whole(["-p64", "f"], ["FAULTS=1"]), whole(["-p64", "-d" + FIVE, "f"], ["PRINT_FAULTS=1"], types=FIVE), whole(["f"], ["SIZE_WRONG=1"], buf=32768), whole([], ["EXPECT_FAILURE=1"]), whole(["-x", "f"], ["EXPECT_FAILURE=1"]),
          whole(["-h"], ["EXPECT_NOTHING=1", "FAULTS=1"]), whole(["-V"], ["EXPECT_NOTHING=1", "FAULTS=1"]), whole(["-d"], ["EXPECT_FAILURE=1"]), whole(["-p"], ["EXPECT_FAILURE=1"]), whole(["-p64", "-d", "nosuch", "f"]),
          whole(["-v", "-p64", "--", "f"]), whole(["-vp64", "-dsha512", "f"], types="sha512"), whole(["-d", "sha1", "-d", "sha256", "-p64", "f"], types="sha256"), whole(["-p64", "f", "g"], operand=2),
          whole(["-p", "64"], ["EXPECT_FAILURE=1"]), whole(["-p64", "-d", "SHA-224,md5", "f"], ["SIZE_WRONG=1"], types="sha224")]
    if tier != "quick":
        hs += [whole(["-p64", "-d", "sha1", "f"], ["FAULTS=1"], types="sha1", reads=1), whole(["-p64", "f"], ["FAULTS=1", "SIZE_WRONG=1"], reads=4)] + [whole(["-p64", "-d", t, "f"], ["PRINT_FAULTS=1"], types=t) for t in subsets() if t]
    harnesses(C, hs)
    C.bounds = ["these command lines: " + "; ".join(h.name for h in hs) + " (faults: every combination of failing calls; print faults: of failing prints; size wrong: reads that do not agree with the size said)"]
    C.outside = ["other command lines (C21, C22 and C24 decide the options' texts and their parsing)", "what is printed besides the digests' lines"]
    return C


def run(pid, tier):
    return globals()[pid](tier)
