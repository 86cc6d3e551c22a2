#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
OUT = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    OUT.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why, "anchors": a})


def algo(id, a, nm, std, size):
    P(id, "%s digests equal the standard for every message, in every build" % nm,
      "For every byte string, the one-shot calculation and the initialize/update/finalize sequence yield exactly the %d bytes that %s defines for %s. "
      "This holds alike whether the library was built with its own implementation (unrolled or folded loops) or with any of the supported OpenSSL interfaces, and the two implementations agree." % (size, std, nm),
      ["inputs", "configurations"],
      "every message (in particular lengths around each padding boundary), every build configuration of the digest back end",
      "The tests digest a few fixed vectors in the one configuration that was built; a digest fault usually shows only for some lengths or some data-dependent carries, and the other back ends are not compiled at all.",
      ["libhmac/libhmac_%s.c" % a, "libhmac/libhmac_%s_context.c" % a],
      [("compression and padding", "libhmac/libhmac_%s_context.c: transform, update, finalize" % a), ("one-shot", "libhmac/libhmac_%s.c: calculate" % a)])


algo("C01", "md5", "MD5", "RFC 1321", 16)
algo("C02", "sha1", "SHA-1", "FIPS 180-4", 20)
algo("C03", "sha224", "SHA-224", "FIPS 180-4", 28)
algo("C04", "sha256", "SHA-256", "FIPS 180-4", 32)
algo("C05", "sha512", "SHA-512", "FIPS 180-4", 64)
L = ["libhmac/libhmac_%s%s.c" % (a, s) for a in ("md5", "sha1", "sha224", "sha256", "sha512") for s in ("", "_context")]
P("C06", "A digest does not depend on how the message was split over updates",
  "For every message and every way to cut it into any number of updates, including empty ones, of any sizes, the finalized digest is that of the whole message. No update call reports a failure for a valid buffer.",
  ["inputs", "histories"], "every message, every sequence of update sizes, five algorithms, every build configuration",
  "Tests do one or two updates of fixed size; the buffered-remainder arithmetic has as many states as block offsets times sizes.",
  L, [("remainder buffering", "libhmac/libhmac_*_context.c: update"), ("padding", "libhmac/libhmac_*_context.c: finalize")],
  [("block offset", "bytes buffered since the last whole block"), ("hash count", "bytes already compressed")])
P("C07", "HMAC equals RFC 2104 for every key and message",
  "For every key and message of any length, the HMAC calculation returns the RFC 2104 value over the respective digest: keys longer than a block are digested first, keys up to and including a block are zero-padded. Neither the key nor the message is modified.",
  ["inputs", "configurations"], "every key length (short, exactly a block, longer, digest-sized), every message, five algorithms, every build configuration",
  "Tests use a handful of key lengths; the key-length case split and pad handling have boundary cases at the block size and are configuration-dependent.",
  L, [("key preparation and pads", "libhmac/libhmac_*.c: calculate_hmac")])
P("C08", "Length accounting is right for arbitrarily long messages",
  "For every total message length below 2^61 bytes reached by any history of updates, finalization pads to the minimal whole number of blocks, with one 0x80 byte, zeros, and the exact bit length in the standard's byte order. Every message byte reaches the compression function exactly once, in order.",
  ["inputs", "histories"], "every update size up to the documented maximum and every earlier total below 2^61 bytes; both loop variants of the built-in implementation",
  "No test can feed 2^32 bits or 2^32 bytes, where truncated counters would first show.",
  ["libhmac/libhmac_%s_context.c" % a for a in ("md5", "sha1", "sha224", "sha256", "sha512")],
  [("bit count and padding", "finalize"), ("consumed count", "update and transform")])
P("C09", "Calls touch only the caller's memory they are entitled to",
  "For every valid argument, digest and HMAC calls read nothing beyond the stated buffer and key lengths, write only the digest-size first bytes of the output buffer however large it is said to be, leave all inputs unmodified, and perform no undefined arithmetic. Everything they allocate is released by the time they return or the context is freed.",
  ["inputs", "histories"], "every buffer, key and output size within the accepted range, every sequence of updates",
  "Out-of-bounds accesses of a few bytes or leaks do not make a functional test fail, and depend on length and offset combinations tests do not take.",
  L, [("bounds and copies", "update, finalize, transform"), ("pad buffers", "calculate_hmac")])
P("C10", "Invalid arguments are refused without effect; empty updates are no-ops",
  "A missing context, buffer, key or output, an over-long size, a too small output buffer, or a context slot already in use makes the call return -1 with an error recorded, modify no output and leave the context usable as before. An update of size 0 with a valid buffer succeeds and changes nothing; freeing an absent context succeeds.",
  ["inputs", "histories"], "every combination of absent and present arguments and every size, at any point of a history",
  "The test suite tries one bad argument at a time and only checks the return code, never that state and outputs are unchanged.",
  L, [("argument checks", "every public function"), ("ownership checks", "initialize, free")])
P("C11", "Every allocation or back-end failure is reported and leaves nothing behind",
  "When an allocation or a back-end digest operation fails at any point, the call returns -1 with an error, never success; no memory is leaked, nothing is freed twice or used after release, and the caller's context slot is empty if nothing was created. A context that survives can still be freed.",
  ["fault_sequences", "configurations"], "every subset of failing allocations and back-end operations, in every public call and build configuration",
  "Fault injection in the tests covers memset and memcpy in some functions of one configuration; back-end failures are never exercised.",
  L, [("error paths", "initialize, calculate, calculate_hmac, finalize")])
P("C12", "Key-derived and message-derived state is erased before its memory is given up",
  "Heap memory holding the padded key and the inner and outer pads is overwritten with zeros before it is released, on success and on every failure path. A successfully finalized context of the built-in implementation retains no message, chaining or length information.",
  ["inputs", "fault_sequences"], "every key and message, every failing allocation or digest step",
  "Tests only see return values and digests; residue in released memory is invisible to them.",
  L, [("erasure of pads", "libhmac/libhmac_*.c: calculate_hmac"), ("erasure of context", "libhmac/libhmac_*_context.c: finalize")])
P("C13", "Contexts are independent and nothing mutable is shared",
  "Any interleaving of operations on several contexts and one-shot calls, of the same or different algorithms, gives each the result it would have alone. No call writes process-wide data, so calls on distinct contexts may run concurrently.",
  ["schedules", "histories"], "every interleaving of operations of two contexts, all algorithms, all build configurations",
  "Tests use one context at a time on one thread; shared scratch data would only corrupt results under interleaving.",
  L + ["libhmac/libhmac_byte_stream.h"], [("context-local state", "libhmac/libhmac_*_context.h"), ("constant tables", "libhmac/libhmac_*_context.c")])
P("C14", "Byte-order conversions and rotations are exact",
  "Each conversion between bytes and integers, in either byte order and of each width, single or in bulk, is the positional value of exactly its bytes, independent of the destination's previous content, and conversions to bytes invert it. Rotations move every bit by the given distance.",
  ["inputs"], "every value and every byte pattern; every rotation distance below the width",
  "The tests check one fixed byte pattern, with previously zero destinations, for the helper functions and never run the macros.",
  ["libhmac/libhmac_byte_stream.h", "common/byte_stream.h"],
  [("bulk copies", "libhmac/libhmac_byte_stream.h"), ("macros", "common/byte_stream.h")])
P("C15", "Buffers are used during the call only, and results may be written over inputs",
  "A call takes the bytes its input and key buffers hold while it runs and keeps no reference to them: changing them after an update changes nothing. The digest or HMAC may be written over all or part of the input or the key, as in digesting a digest in place, and key and data may be the same memory.",
  ["inputs", "histories"], "every byte, every relative position of inputs and result around each case, all algorithms and build configurations",
  "Tests always use separate buffers and never change them between calls.",
  L, [("one-shot and HMAC", "libhmac/libhmac_*.c: calculate, calculate_hmac"), ("buffered part of an update", "libhmac/libhmac_*_context.c: update, finalize")])
P("C16", "Digest text is the exact lower-case hexadecimal form",
  "Formatting a digest writes two lower-case hexadecimal digits per byte, most significant digit first, in order, followed by a terminator, and nothing beyond. A text buffer that cannot hold digits and terminator is refused without being overrun.",
  ["inputs"], "every digest value and size, every text buffer size, narrow and wide characters",
  "The test formats at most one digest; buffer-size boundary cases and other byte values are open.",
  ["hmactools/digest_hash.c"], [("formatting", "hmactools/digest_hash.c: digest_hash_copy_to_string")])
P("C17", "Size texts are read exactly or refused",
  "A size text is a decimal number, optionally with a fraction after the locale's decimal point (its first two digits count), an optional space, an optional multiple letter k, m, g, t, p, e, z or y of either case, and a unit: none or iB for powers of 1024, B for powers of 1000. It yields exactly the number of bytes denoted, the fraction taken down to whole units of the next smaller kind (bytes have no fraction). Text with any other unit, and any number too large for 64 bits, is refused and leaves the result untouched. What follows a complete unit, and numbers lacking a digit, are not specified.",
  ["inputs"], "every text up to the stated length, terminated or not at the stated length",
  "No test covers the size parser; its grammar has many shapes and overflow needs long inputs.",
  ["hmactools/byte_size_string.c"], [("parser", "hmactools/byte_size_string.c: byte_size_string_convert")])
P("C18", "Size texts are written within their buffer and denote the size",
  "Formatting a size with units of 1000 or 1024 into a buffer of at least 9 characters gives the largest unit not above it with at most one truncated fraction digit, always terminated within the buffer; smaller buffers and failing prints are refused. Reading the text back gives a value that is not above the original and differs from it by less than one unit of the last digit printed (up to the rounding of the next smaller unit).",
  ["inputs"], "every 64-bit size, both unit systems, every buffer size",
  "No test covers the formatter; the remainder arithmetic spans 64-bit sizes and seven unit magnitudes.",
  ["hmactools/byte_size_string.c"], [("formatter", "hmactools/byte_size_string.c: byte_size_string_create")])
P("C19", "The digest the tool prints is that of exactly the file's bytes",
  "For every file content, buffer size and way reads split the data, every selected digest printed is the digest of the whole content in order, each byte once. If the data cannot be read in full the tool reports failure rather than a digest of part of it.",
  ["inputs", "schedules", "fault_sequences"], "every file size and process buffer size, every sequence of short or failing reads, every set of selected algorithms",
  "Tool tests run a few small files with full reads; short reads, read errors and size changes cannot be staged there.",
  ["hmactools/sum_handle.c", "hmactools/hmacsum.c"], [("read loop", "hmactools/sum_handle.c: sum_handle_process_input"), ("update of selected digests", "hmactools/sum_handle.c: sum_handle_update_integrity_hash")])
P("C20", "The tool's handle neither leaks nor corrupts memory under any failure",
  "For any failing allocation, file operation or digest operation, each operation of the tool's handle reports the failure, and everything acquired is released exactly once, at the latest when the handle is freed. Freeing always leaves the caller's reference empty.",
  ["fault_sequences", "histories"], "every subset of failing operations over create, select, open, process, print, close, free",
  "The tests force few allocation failures and do not look at leaks on error paths.",
  ["hmactools/sum_handle.c"], [("life cycle", "hmactools/sum_handle.c: initialize, free, open, close, process")])
P("C21", "The digest selection option enables exactly the named algorithms",
  "For every option text, each comma separated name among md5, sha1, sha224, sha256, sha512 (with their hyphenated forms) adds exactly that algorithm to the selection, other names add none, and the numbers of initialized, updated, finalized and printed digests agree with the selection. The call reports success with the documented code and releases what it used.",
  ["inputs"], "every option text made of any list of names, known or not",
  "Tests call it with one fixed list; near-miss names and combinations are open.",
  ["hmactools/sum_handle.c"], [("selection", "hmactools/sum_handle.c: sum_handle_set_digest_types")])
P("C22", "The process buffer size option is honoured or refused",
  "A valid size text that denotes at most the supported maximum (SSIZE_MAX) sets the process buffer to exactly that many bytes; any other text is refused and the previous value is kept. Processing never reads with a larger buffer than the accepted size, or the default when none was given; a size of zero may be accepted by the option but is then refused when processing, never used.",
  ["inputs"], "every option text and every 64-bit size it can denote",
  "No test goes beyond a valid example; overflow and limits need specific sizes.",
  ["hmactools/sum_handle.c", "hmactools/byte_size_string.c"], [("option", "hmactools/sum_handle.c: sum_handle_set_process_buffer_size")])
P("C23", "An interrupt stops the tool cleanly at any moment",
  "Whenever an interrupt arrives, before, between or during the processing steps, the tool stops reading after at most the read under way, never prints a digest of partial data as if it were complete, reports failure and releases each resource once. The handler never touches a handle that no longer exists.",
  ["schedules", "crash_points"], "an interrupt at every step between start-up and exit, once or more",
  "Tests never deliver signals; the window is a few instructions wide.",
  ["hmactools/hmacsum.c", "hmactools/sum_handle.c", "hmactools/hmactools_signal.c"],
  [("handler", "hmactools/hmacsum.c: hmacsum_signal_handler"), ("abort flag", "hmactools/sum_handle.c: sum_handle_signal_abort, process_input")])
P("C24", "Command line options are split as POSIX specifies",
  "For every argument vector, the fallback option reader returns each option letter once, in order, with its argument whether attached or separate, reports unknown letters and missing arguments, and stops at the first operand or at --. It never reads beyond the vector or a string's end and leaves the index at the first operand.",
  ["inputs"], "every argument vector up to the bounds, every option specification of the tool",
  "The function is compiled only where the C library lacks one, so no test runs it here.",
  ["hmactools/hmactools_getopt.c"], [("option reader", "hmactools/hmactools_getopt.c: hmactools_getopt")])
P("C25", "The tool's exit status and output agree with what happened",
  "The tool exits with success only if opening, reading and closing the input succeeded and it printed the digest line of every selected algorithm for the complete input, uninterrupted (or was only asked for help or version), and it does succeed when nothing it needs fails and no interrupt arrives; in every other case it exits with failure. Each line carries the algorithm's name and the digest computed for it.",
  ["inputs", "fault_sequences"], "every option combination and every failing step from start-up to exit",
  "Tests run the tool only on the good path.",
  ["hmactools/hmacsum.c", "hmactools/sum_handle.c"], [("control flow", "hmactools/hmacsum.c: main"), ("lines", "hmactools/sum_handle.c: sum_handle_hash_values_fprint")])
P("C26", "The Python binding passes values through unchanged",
  "For every bytes argument the binding hands the library exactly its bytes and length (key and data each in their own role), and returns exactly the digest bytes the library produced. Every library failure becomes an exception and never a value.",
  ["inputs", "fault_sequences"], "every data and key bytes, every outcome of the library calls, five algorithms",
  "Python tests check fixed vectors and no failure outcome.",
  ["pyhmac/pyhmac_%s%s.c" % (a, s) for a in ("md5", "sha1", "sha224", "sha256", "sha512") for s in ("", "_context")],
  [("functions", "pyhmac/pyhmac_*.c"), ("context type", "pyhmac/pyhmac_*_context.c")])
P("C27", "The Python binding keeps references, contexts and exceptions balanced",
  "Every binding call returns either a new reference with no exception set or nothing with an exception set, owns each reference it takes exactly once, and releases every temporary and every library context exactly once. This holds for repeated initialization, objects never initialized, and any failing interpreter or library call.",
  ["fault_sequences", "histories"], "every sequence of create, initialize, update, finalize, destroy and every failing call",
  "Reference leaks and double releases do not fail a test; interpreter failures cannot be staged from Python.",
  ["pyhmac/pyhmac_error.c", "pyhmac/pyhmac.c"] + ["pyhmac/pyhmac_%s%s.c" % (a, s) for a in ("md5", "sha1", "sha224", "sha256", "sha512") for s in ("", "_context")],
  [("reference handling", "pyhmac/pyhmac_*.c"), ("error conversion", "pyhmac/pyhmac_error.c")])
P("C28", "The Python binding holds the interpreter lock exactly where required",
  "Every path through a binding call releases and re-acquires the interpreter lock in pairs, calls the interpreter only while holding it, and holds it on return. Digest work on caller data runs with the lock released.",
  ["schedules", "fault_sequences"], "every path of every binding call, with any failing step",
  "A missing re-acquisition shows only under a failing step or with several threads.",
  ["pyhmac/pyhmac_%s%s.c" % (a, s) for a in ("md5", "sha1", "sha224", "sha256", "sha512") for s in ("", "_context")],
  [("lock regions", "pyhmac/pyhmac_*.c: allow-threads regions")])
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(p, "w") as f:
    for o in OUT:
        assert len(o["title"]) <= 80, o["title"]
        f.write(json.dumps(o) + "\n")
print(len(OUT), "properties")
