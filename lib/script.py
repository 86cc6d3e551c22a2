"""Scenarios as lists of API operations: executed symbolically (IR of the real code) and, when a counterexample is
found, concretely on the natively built real code under ASan/UBSan.

Buffers: {"name": (kind, n)}, kind "in" (read-only, exactly n bytes) or "out" (n bytes).
Ops (name "NULL" stands for a NULL pointer, slot -1 for a NULL slot/context):
  ("init", slot, algo, api) ("free", slot, algo, api)          api: 0 libhmac_x_, 1 libhmac_x_context_
  ("upd", slot, algo, api, (buf, off), n)
  ("fin", slot, algo, api, out, hsize)
  ("calc", algo, (buf, off), n, out, hsize)
  ("hmac", algo, (key, off), kn, (buf, off), n, out, hsize)
Expectation of an op: dict(ret=1/-1, out=("digest", algo, [(buf, off, n)...]) | ("hmac", algo, key, kn, buf, off, n) | None)
"""
import os, hashlib, hmac as hmacmod
import build, spec
from digest import Engine, Violation, Undecided, GUARD
from irx import P, Obj, Unsupported, MemError, PathLimit, Budget
from terms import Term

APIS = ("", "context_")


class Runner(object):
    def __init__(self, E, bufs, opts=None):
        self.E, self.bufs, self.opts = E, bufs, opts or {}

    def setup(self):
        E = self.E
        self.p = {}
        self.now = {}
        for n, (kind, size) in self.bufs.items():
            if kind == "in":
                self.p[n] = E.inp(n + "_", size)
            else:
                o = Obj(size, "out", n)
                o.mem = [E.st.var("%s_%d" % (n, i), 8) for i in range(size)]
                self.p[n] = P(o, 0)
            self.now[n] = list(self.p[n].o.mem)
        self.slots = {}
        self.trace = []
        self.streams = {}

    def ptr(self, ref):
        if ref == "NULL":
            return 0
        if isinstance(ref, str):
            ref = (ref, 0)
        p = self.p[ref[0]]
        return P(p.o, p.off + ref[1])

    def data(self, parts):
        out = []
        for b, off, n in parts:
            out += self.now[b][off:off + n]
        return out

    def expected_out(self, exp):
        if exp[0] == "stream":
            return self.E.sp.digest(exp[1], self.streams[exp[2]])
        if exp[0] == "digest":
            return self.E.sp.digest(exp[1], self.data(exp[2]))
        return self.E.sp.hmac(exp[1], self.data([exp[2]]), self.data(exp[3]))

    def op(self, op, exp, fault=None):
        """fault: None, or function deciding from the choices whether the op must fail."""
        E, X = self.E, self.E.X
        k = op[0]
        err = E.ptrcell(0, "error")
        nch = len(X.user.get("choices", []))
        slot = None
        outp = None
        if k in ("init", "free"):
            slot = op[1]
            if slot >= 0 and slot not in self.slots:
                self.slots[slot] = E.ptrcell(0, "slot%d" % slot)
            args = [self.slots[slot] if slot >= 0 else 0, err]
            fn = "libhmac_%s_%s%s" % (op[2], APIS[op[3]], "initialize" if k == "init" else "free")
        elif k in ("upd", "fin"):
            c = X.ld(self.slots[op[1]], 8, 64) if op[1] >= 0 else 0
            args = [c, self.ptr(op[4]), op[5], err]
            if k == "fin":
                outp = op[4]
            fn = "libhmac_%s_%s%s" % (op[2], APIS[op[3]], "update" if k == "upd" else "finalize")
        elif k == "calc":
            args = [self.ptr(op[2]), op[3], self.ptr(op[4]), op[5], err]
            outp = op[4]
            fn = "libhmac_%s_calculate" % op[1]
        else:
            args = [self.ptr(op[2]), op[3], self.ptr(op[4]), op[5], self.ptr(op[6]), op[7], err]
            outp = op[6]
            fn = "libhmac_%s_calculate_hmac" % op[1]
        rec = {"op": op, "ret": exp.get("ret", 1), "out": exp.get("out")}
        self.trace.append(rec)
        r = X.call(fn, args)
        failed = [c for c, d in X.user.get("choices", [])[nch:] if not d]
        rec["failed"] = failed
        if self.opts.get("faults"):
            # a fault during the call must surface as -1 (free excepted when nothing it needs failed)
            if failed:
                rec["ret"] = -1
        if self.opts.get("dead") and rec["ret"] == 1:
            pass
        self.trace_cur = rec
        if type(r) is not int:
            raise Undecided("symbolic return value of %s" % fn)
        r = r - (1 << 32) if r >> 31 else r
        if r != rec["ret"]:
            raise Violation("%s returned %d instead of %d%s" % (fn, r, rec["ret"], " after failing " + ",".join(failed) if failed else ""), E.model(None))
        e = X.ld(err, 8, 64)
        es = type(e) is P
        if es != (r == -1):
            raise Violation("%s returned %d but %s error" % (fn, r, "set an" if es else "set no"), E.model(None))
        if es:
            X.free(e)
        if k in ("init", "free") and slot >= 0:
            v = X.ld(self.slots[slot], 8, 64)
            want_null = exp.get("null", (k == "free") or r != 1)
            rec["null"] = want_null
            if (type(v) is int and v == 0) != want_null:
                raise Violation("%s: context reference %s after the call" % (fn, "not cleared" if want_null else "cleared"), E.model(None))
        if k == "init" and r == 1:
            self.streams[slot] = []
        elif k == "upd" and r == 1 and isinstance(op[4], tuple) and type(op[5]) is int:
            # what the buffer holds during the call
            self.streams[op[1]] = self.streams[op[1]] + self.data([(op[4][0], op[4][1], op[5])])
        # outputs
        ooff = 0
        if isinstance(outp, tuple):
            outp, ooff = outp
        for n, (kind, size) in self.bufs.items():
            if kind == "in":
                continue
            o = self.p[n].o
            want = self.now[n]
            if n == outp and r == 1 and rec["out"] is not None:
                if self.opts.get("nocompare"):
                    # any digest bytes here: what they must be is decided elsewhere
                    d = [E.X.cell(x) for x in o.mem[ooff:ooff + spec.SIZE[op[1] if k in ("calc", "hmac") else op[2]]]]
                else:
                    d = self.expected_out(rec["out"])
                want = want[:ooff] + d + want[ooff + len(d):]
            elif n == outp and r == -1 and failed:
                # a failed call may leave anything in the digest bytes it was given, but not beyond
                hs = spec.SIZE[op[1] if k in ("calc", "hmac") else op[2]]
                want = want[:ooff] + [E.X.cell(x) for x in o.mem[ooff:ooff + hs]] + want[ooff + hs:]
            got = E.X.bytes_at(self.p[n], size) if size else []
            E.same(got, want, "%s: output %s" % (fn, n))
            self.now[n] = want
        return r

    def finish(self, leak=True):
        E = self.E
        if leak:
            E.noleak("after the scenario")
        if self.opts.get("static"):
            E.nogwrites("scenario")
        for u in E.X.undef_reads:
            raise Violation("use of uninitialized memory: %s" % u, E.model(None))


# ------------------------------------------------------------------ native
WRAPS = {"evp": ["EVP_MD_CTX_new", "EVP_MD_CTX_free", "EVP_DigestInit_ex2", "EVP_DigestInit_ex", "EVP_DigestUpdate", "EVP_DigestFinal_ex"],
         "legacy": ["%s_%s" % (a, b) for a in ("MD5", "SHA1", "SHA224", "SHA256", "SHA512") for b in ("Init", "Update", "Final")]}


def driver(cfg, work):
    d = os.path.join(work, cfg + "_native")
    exe = os.path.join(d, "replay")
    if os.path.exists(exe):
        return exe
    build.gen_headers(d, cfg)
    wr = ["malloc", "calloc", "free"]
    defs = []
    libs = []
    extra = []
    if cfg in ("evp", "evp1"):
        wr += WRAPS["evp"]
        defs = ["-DWITH_EVP"]
        libs = ["-lcrypto"]
    elif cfg == "legacy":
        wr += WRAPS["legacy"]
        defs = ["-DWITH_LEGACY"]
        libs = ["-lcrypto"]
    elif cfg == "evp0":
        extra = [os.path.join(build.STUBS, "openssl10_native.c")]
        libs = ["-lcrypto"]
    tmp = exe + ".%d" % os.getpid()
    build.must(["/usr/bin/gcc", "-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + defs
               + build.cflags(d, cfg) + build.lib_sources()
               + extra + [os.path.join(build.STUBS, "replay_driver.c"), os.path.join(build.STUBS, "libcerror_native.c")]
               + ["-Wl," + ",".join("--wrap=" + w for w in wr), "-o", tmp] + libs)
    os.rename(tmp, exe)
    return exe


def guard_driver(cfg, work):
    """The library as a shared object whose static data cannot be written while its functions run."""
    d = os.path.join(work, cfg + "_guard")
    exe = os.path.join(d, "replay")
    if os.path.exists(exe):
        return exe
    build.gen_headers(d, cfg)
    t = os.path.join(d, "t%d" % os.getpid())
    os.makedirs(t, exist_ok=True)
    so = os.path.join(t, "libguarded.so")
    libs = ["-lcrypto"] if cfg not in ("builtin", "folded") else []
    extra = [os.path.join(build.STUBS, "openssl10_native.c")] if cfg == "evp0" else []
    build.must(["/usr/bin/gcc", "-shared", "-fPIC", "-g", "-O0"] + build.cflags(d, cfg) + build.lib_sources() + ["-Wl,-z,now,-z,relro", "-o", so] + libs)
    build.must(["/usr/bin/gcc", "-g", "-O0", "-rdynamic", "-DSTATIC_GUARD"] + build.cflags(d, cfg) + extra
               + [os.path.join(build.STUBS, "replay_driver.c"), os.path.join(build.STUBS, "libcerror_native.c"), so, "-Wl,-z,now,-rpath," + t, "-o", os.path.join(t, "replay"), "-ldl"] + libs)
    os.symlink(os.path.join(t, "replay"), exe + ".%d" % os.getpid())
    os.rename(exe + ".%d" % os.getpid(), exe)
    return exe


def static_check(cfg, work, bufs, trace, env, opts):
    """Does the real code write static data of its own in this scenario?"""
    text = native_text(bufs, trace, env, opts)
    rc, out, err = build.run([guard_driver(cfg, work)], timeout=120, inp=text.encode())
    return ["writes process-wide data: " + l[13:] for l in out.split("\n") if l.startswith("static-write ")], text, out


def native_text(bufs, trace, env, opts):
    L = []
    for n, (kind, size) in bufs.items():
        pre = n + "_"
        L.append("buf %s %s" % (n, bytes(env.get("%s%d" % (pre, i), 0) & 255 for i in range(size)).hex()))
    ch = opts.get("choices", [])
    cnt, fails = {}, {}
    for name, d in ch:
        k = cnt.get(name, 0)
        cnt[name] = k + 1
        fails.setdefault(name, [])
        if not d:
            fails[name].append(k)
    for name, ks in fails.items():
        L.append("fail %s %s" % (name, " ".join(map(str, ks))))
    if opts.get("tracefree"):
        L.append("tracefree")

    def ref(r):
        return "NULL" if r == "NULL" else ("%s+%d" % r if not isinstance(r, str) else r)
    for t in trace:
        o = t["op"]
        k = o[0]
        if k in ("init", "free"):
            L.append("%s %d %s %d" % (k, o[1], o[2], o[3]))
        elif k in ("upd", "fin"):
            L.append("%s %d %s %d %s %d" % (k, o[1], o[2], o[3], ref(o[4]), cval(o[5], env)))
        elif k == "calc":
            L.append("calc %s %s %d %s %d" % (o[1], ref(o[2]), cval(o[3], env), ref(o[4]), cval(o[5], env)))
        else:
            L.append("hmac %s %s %d %s %d %s %d" % (o[1], ref(o[2]), cval(o[3], env), ref(o[4]), cval(o[5], env), ref(o[6]), cval(o[7], env)))
    return "\n".join(L) + "\n"


def cval(v, env):
    if type(v) is int:
        return v
    if isinstance(v, Term):
        return env.get(v.name, 0)
    return v


def native_check(cfg, work, bufs, trace, env, opts):
    """Run on the real code; list of disagreements with the expectations (empty: conforms)."""
    text = native_text(bufs, trace, env, opts)
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1")
    rc, out, err = build.run([driver(cfg, work)], timeout=120, env=e, inp=text.encode())
    bad = []
    if rc != 0 or "\nend" not in out:
        m = [l for l in err.split("\n") if "ERROR" in l or "runtime error" in l]
        bad.append("abnormal end (%d): %s" % (rc, (m or [err[-300:]])[0]))
    ops = [l.split() for l in out.split("\n") if l.startswith("op ")]
    for k, (t, l) in enumerate(zip(trace, ops)):
        if int(l[2]) != t["ret"]:
            bad.append("operation %d %s returned %s instead of %d" % (k, t["op"][0], l[2], t["ret"]))
        if (int(l[3]) == 1) != (int(l[2]) == -1):
            bad.append("operation %d %s returned %s with%s error" % (k, t["op"][0], l[2], "out" if l[3] == "0" else " an"))
        if "null" in t and int(l[4]) >= 0 and (l[4] == "1") != t["null"]:
            bad.append("operation %d %s: context reference %s" % (k, t["op"][0], "empty" if l[4] == "1" else "not empty"))
    got = {}
    for l in out.split("\n"):
        if l.startswith("buf "):
            w = l.split(" ")
            got[w[1]] = bytes.fromhex(w[2]) if len(w) > 2 else b""
    now = {n: bytearray(env.get("%s_%d" % (n, i), 0) & 255 for i in range(sz)) for n, (kd, sz) in bufs.items()}
    free_out = set()
    streams = {}
    for t in trace:
        o = t["op"]
        if o[0] == "init":
            streams[o[1]] = b""
        elif o[0] == "upd" and t["ret"] == 1 and isinstance(o[4], tuple) and type(o[5]) is int:
            streams[o[1]] = streams.get(o[1], b"") + bytes(now[o[4][0]][o[4][1]:o[4][1] + o[5]])
        if t["ret"] == 1 and t.get("out"):
            ex = t["out"]
            if ex[0] == "stream":
                d = hashlib.new(ex[1], streams[ex[2]]).digest()
            elif ex[0] == "digest":
                d = hashlib.new(ex[1], b"".join(bytes(now[b][f:f + n]) for b, f, n in ex[2])).digest()
            else:
                b, f, n = ex[2]
                d = hmacmod.new(bytes(now[b][f:f + n]), b"".join(bytes(now[b2][f2:f2 + n2]) for b2, f2, n2 in ex[3]), ex[1]).digest()
            on = o[4] if o[0] in ("fin", "calc") else o[6]
            on, oo = on if isinstance(on, tuple) else (on, 0)
            now[on][oo:oo + len(d)] = d
        elif t["ret"] == -1 and t.get("failed"):
            on = {"fin": 4, "calc": 4, "hmac": 6}.get(o[0])
            if on and o[on] != "NULL":
                hs = spec.SIZE[o[1] if o[0] in ("calc", "hmac") else o[2]]
                free_out.add((o[on], hs))
    if "\nend" in out:
        for n in bufs:
            g, w = got.get(n, b""), bytes(now[n])
            for on, hs in free_out:
                if on == n:
                    g, w = g[hs:], w[hs:]
            if g != w:
                bad.append("buffer %s: %s instead of %s" % (n, g.hex()[:200], w.hex()[:200]))
        if opts.get("leak", True):
            live = [l for l in out.split("\n") if l.startswith("live ")]
            if live and int(live[0].split()[1]) != 0:
                bad.append("%s blocks not released" % live[0].split()[1])
    return bad, text, out
