"""C01-C07, C10-C13: the digest and HMAC API in every build configuration, on the IR engine."""
import os, sys, time, random
import build, spec
from check import Check, Result
from digest import Engine, Violation, Undecided
from irx import Unsupported, MemError, PathLimit, Budget, P
from terms import Term, K
import script
from script import Runner, native_check

CONFIGS = ["builtin", "folded", "evp", "evp1", "evp0", "legacy"]
REAL = ("builtin", "folded")
AID = {"C01": "md5", "C02": "sha1", "C03": "sha224", "C04": "sha256", "C05": "sha512"}


def run_scripts(part, cfg, algos, scripts, work, seed, opts=None, hook=None, max_paths=400, max_viol=2):
    """scripts: list of (name, bufs, [(op, expectation)])."""
    opts = dict(opts or {})
    R = Result("%s %s %s" % (part, cfg, "+".join(algos)))
    E = Engine(cfg, algos, os.path.join(work, "p%d" % os.getpid()), seed, sweep=not opts.get("nocompare"), ubsan=bool(opts.get("ubsan")))
    for name, bufs, ops in scripts:
        rn = Runner(E, bufs, opts)

        def scen(E, rn=rn, ops=ops):
            if opts.get("faults"):
                E.X.user["faults"] = True
                E.X.user["malloc_may_fail"] = True
            rn.setup()
            if hook:
                hook(E, rn)
            for op, exp in ops:
                if callable(op):
                    op, exp = op(rn)
                if op is None:
                    continue
                rn.op(op, exp)
            rn.finish(opts.get("leak", True))
        try:
            n = E.explore(scen, max_paths)
            R.paths += n
            R.scen += 1
        except Violation as v:
            env = v.env
            if env is None:
                R.undecided.append("%s %s: no model for: %s" % (R.part, name, v.what))
                continue
            o = dict(opts, choices=list(E.X.user.get("choices", [])))
            bad, text, out = confirm(cfg, work, bufs, rn.trace, env, o, v, E)
            R.replays += 1
            R.violations.append({"key": "%s:%s:%s" % (cfg, "+".join(algos), v.what.split(":")[0][:60]),
                                 "what": "[%s %s] %s: %s; real code: %s" % (cfg, "+".join(algos), name, v.what, "; ".join(bad)[:300]),
                                 "confirmed": bool(bad), "scenario": name, "config": cfg, "replay_input": text,
                                 "replay_output": out[-4000:], "disagreements": bad})
            if len(R.violations) >= max_viol:
                break
        except (Undecided, Unsupported, Budget) as e:
            R.undecided.append("%s %s: %s: %s" % (R.part, name, type(e).__name__, e))
            if len(R.undecided) > 5:
                break
    R.queries = dict(E.st.stats)
    R.funcs = set(E.X.funcs_run)
    if scripts:
        R.samples.append({"config": cfg, "scenario": scripts[-1][0]})
    return R


def confirm(cfg, work, bufs, trace, env, opts, v, E):
    try:
        if opts.get("static") and "writes shared static data" in v.what:
            return script.static_check(cfg, work, bufs, trace, env, opts)
        if opts.get("confirm"):
            return opts["confirm"](cfg, work, bufs, trace, env, opts, v, E)
        bad, text, out = native_check(cfg, work, bufs, trace, env, opts)
        if bad:
            return bad, text, out
        # further inputs of the same path: the model fixes only what the path needs
        for k in range(K):
            env2 = E.st.sim_env(k)
            if all(E.st.evaluate([c], env2)[0] for c in E.X.pc if type(c) is not int):
                bad, text, out = native_check(cfg, work, bufs, trace, env2, opts)
                if bad:
                    return bad, text, out
        return bad, text, out
    except build.BuildError as e:
        return [], "", "replay build failed: %s" % e


def hs(a):
    return spec.SIZE[a]


def dg(a, parts):
    return {"ret": 1, "out": ("digest", a, parts)}


OK = {"ret": 1}


def s_oneshot(a, n):
    return ("one-shot of %d bytes" % n, {"m": ("in", n), "h": ("out", hs(a) + 8)},
            [(("calc", a, ("m", 0), n, "h", hs(a)), dg(a, [("m", 0, n)]))])


def s_stream(a, parts, api, hsize=None):
    n = sum(parts)
    ops = [(("init", 0, a, api), OK)]
    o = 0
    for k in parts:
        ops.append((("upd", 0, a, api, ("m", o), k), OK))
        o += k
    ops.append((("fin", 0, a, api, "h", hsize or hs(a)), dg(a, [("m", 0, n)])))
    ops.append((("free", 0, a, api), OK))
    return ("updates of %s bytes (api %d)" % ("+".join(map(str, parts)) or "no", api), {"m": ("in", n), "h": ("out", hs(a) + 8)}, ops)


def s_hmac(a, kn, n):
    return ("HMAC key %d message %d" % (kn, n), {"k": ("in", kn), "m": ("in", n), "h": ("out", hs(a) + 8)},
            [(("hmac", a, ("k", 0), kn, ("m", 0), n, "h", hs(a)), {"ret": 1, "out": ("hmac", a, ("k", 0, kn), [("m", 0, n)])})])


def s_history(a, kind, x, y):
    """Several calculations one after the other: what an earlier call leaves behind changes nothing."""
    H = hs(a)
    bufs = {"m": ("in", x), "n": ("in", y), "k": ("in", x + 1), "l": ("in", y + 1), "h": ("out", H + 8), "g": ("out", H + 8), "f": ("out", H + 8)}
    if kind == "hmac":
        ops = [(("hmac", a, (k, 0), kn, (m, 0), n, o, H), {"ret": 1, "out": ("hmac", a, (k, 0, kn), [(m, 0, n)])})
               for k, kn, m, n, o in (("k", x + 1, "m", x, "h"), ("l", y + 1, "n", y, "g"), ("k", x, "m", x, "f"))]
    else:
        calc = lambda m, n, o: (("calc", a, (m, 0), n, o, H), dg(a, [(m, 0, n)]))
        stream = lambda m, n, o: [(("init", 0, a, 1), OK), (("upd", 0, a, 1, (m, 0), n), OK), (("fin", 0, a, 1, o, H), dg(a, [(m, 0, n)])), (("free", 0, a, 1), OK)]
        if kind == "calc":
            ops = [calc("m", x, "h")] + stream("l", y + 1, "g") + [calc("n", y, "f")]
        else:
            ops = stream("m", x, "h") + stream("n", y, "g") + stream("k", x + 1, "f")
    return ("%s after %s: %d, %d bytes" % (kind, kind, x, y), bufs, ops)


# ------------------------------------------------------------------ transform from any state
def transform_part(a, cfg, work, seed, nblocks):
    R = Result("compression from any state %s %s" % (cfg, a))
    E = Engine(cfg, [a], os.path.join(work, "p%d" % os.getpid()), seed)
    fn = "libhmac_%s_context_transform" % a
    if fn not in E.mod.funcs:
        R.notes.append("%s not present in %s: only the API-level comparison applies" % (fn, cfg))
        return R
    # the context layout, from the IR
    ty = E.mod.types.get("struct.libhmac_internal_%s_context" % a)
    if ty is None or len(ty[1]) < 5:
        R.notes.append("context layout of %s not recognised" % a)
        return R
    lay = E.mod.layout(ty)[0]
    size = E.mod.size(ty)
    W = 64 if a == "sha512" else 32
    N = 4 if a == "md5" else (5 if a == "sha1" else 8)
    if E.mod.size(ty[1][1]) != N * W // 8:
        R.notes.append("context layout of %s not recognised" % a)
        return R
    B = spec.BLOCK[a]
    for nb in nblocks:
        for extra in (0, 1, B - 1) if nb == 1 else (0,):
            bufs = {"m": ("in", nb * B + extra)}

            def scen(E):
                X = E.X
                c = X.malloc(size, "context")
                c.o.mem = [E.st.var("ctx_%d" % i, 8) for i in range(size)]
                before = list(c.o.mem)
                h = [E.st.var("hv_%d" % i, W) for i in range(N)]
                for i in range(N):
                    X.store(P(c.o, lay[1] + i * W // 8), h[i], W // 8)
                m = E.inp("m_", nb * B + extra)
                r = X.call(fn, [c, m, nb * B + extra, E.ptrcell(0, "error")])
                if type(r) is not int or r != nb * B:
                    raise Violation("compression of %d blocks (+%d bytes) consumed %r" % (nb, extra, r), E.model(None))
                for k in range(nb):
                    h = E.sp.compress(a, h, m.o.mem[k * B:(k + 1) * B])
                got = [X.ld(P(c.o, lay[1] + i * W // 8), W // 8, W) for i in range(N)]
                E.same(got, h, "chaining value after %d blocks" % nb)
                for i in range(size):
                    if not lay[1] <= i < lay[1] + N * W // 8:
                        E.same([X.cell(c.o.mem[i])], [before[i]], "context byte %d" % i)
            try:
                R.paths += E.explore(scen)
                R.scen += 1
            except Violation as v:
                # not an input of the public API: only a hint; the API-level scenarios decide
                R.notes.append("differs from the standard from some state: %s" % v.what)
                R.undecided.append("compression %s %s: %s" % (cfg, a, v.what))
                break
            except (Undecided, Unsupported, Budget) as e:
                R.undecided.append("compression %s %s: %s" % (cfg, a, e))
                break
    R.queries = dict(E.st.stats)
    R.funcs = set(E.X.funcs_run)
    return R


def chunks(l, n):
    return [l[i::n] for i in range(n) if l[i::n]]


def digest_check(pid, tier):
    a = AID[pid]
    B = spec.BLOCK[a]
    C = Check(pid, tier, "symbolic execution of LLVM IR + SMT sweeping (z3) against the standard")
    jobs = []
    pad = B // 8
    if tier == "quick":
        lens = sorted(set(list(range(0, 10)) + list(range(B - pad - 4, B + 4)) + list(range(2 * B - pad - 3, 2 * B + 3))
                          + [B // 2 - 1, B // 2, 3 * B - pad - 1, 3 * B - pad, 3 * B, 4 * B + 1]))
        ulens = list(range(0, 2 * B + 3))
        nb = (1, 2, 3)
    else:
        lens = list(range(0, 4 * B + 2))
        ulens = list(range(0, 4 * B + 2))
        nb = (1, 2, 3, 4, 5, 6, 7, 8)
    for cfg in CONFIGS:
        ls = lens if cfg in REAL else ulens
        sc = []
        for k, n in enumerate(ls):
            sc.append(s_oneshot(a, n))
            sc.append(s_stream(a, [n], k % 2))
        sc.append(s_stream(a, [], 0))
        for x, y in ((5, 3), (B + 2, 7), (2, B + 1)):
            sc.append(s_history(a, "calc", x, y))
        for part in chunks(sc, (4 if cfg in REAL else 1) if tier == "quick" else 8):
            jobs.append((run_scripts, ("digest", cfg, [a], part, C.work, C.seed)))
    for cfg in REAL:
        jobs.append((transform_part, (a, cfg, C.work, C.seed, nb)))
    from streams import openssl_part, oneshot_part
    for cfg in CONFIGS:
        if cfg not in REAL:
            jobs.append((openssl_part, (a, cfg, C.work, C.seed, 1 if tier == "quick" else 3)))
        elif cfg == "builtin" or tier != "quick":
            jobs.insert(0, (oneshot_part, (a, cfg, C.work, C.seed)))
    C.map(jobs)
    C.bounds = ["built-in implementation: message lengths %s, all byte values; the compression function from every state for %s consecutive blocks"
                % (compact(lens), compact(nb)),
                "OpenSSL configurations (evp, evp1, evp0, legacy): message lengths %s, all byte values; messages of any (symbolic) size, in one call and in one update, reach the back end whole" % compact(ulens),
                "built-in implementation, one-shot messages of q*block+t bytes, for every t and every q with a total below 2^61: exactly the message, 0x80, zeros and the bit length are compressed, minimally padded"]
    C.outside = ["that the compression function handles a run of more blocks than the stated numbers as it handles those", "updates of any sizes in the built-in implementation: C06 and C08"]
    C.assumptions = ["OpenSSL's digest primitives compute the standards (modelled as functions of the bytes handed to them)",
                     "clang 18 -O0 IR represents the C semantics of the source on x86-64",
                     "libcerror only records errors"]
    return C


def compact(l):
    l = sorted(set(l))
    out = []
    i = 0
    while i < len(l):
        j = i
        while j + 1 < len(l) and l[j + 1] == l[j] + 1:
            j += 1
        out.append("%d-%d" % (l[i], l[j]) if j > i else "%d" % l[i])
        i = j + 1
    return ",".join(out)


STEPS = {"quick": "built-in code: from the state after q0*block+r bytes (every r; every q0 with a total below 2^61; unused block bytes arbitrary), "
                  "an update of q1*block+s bytes (every q1; s in 0, 1, block-1 and the three that end next to a block boundary) compresses the right bytes at the right "
                  "positions and leads to the state of one update of the sum; rolled loops: r and s in 0, 1, block-1",
         "thorough": "built-in code, unrolled and rolled loops: from the state after q0*block+r bytes, an update of q1*block+s bytes, for every r and s "
                     "and every q0, q1 with a total below 2^61, compresses the right bytes at the right positions and leads to the state of one update of the "
                     "sum: by induction any number of updates of any sizes"}


def C08(tier):
    C = Check("C08", tier, "symbolic execution of LLVM IR with symbolic sizes (compression function recorded), z3")
    from streams import step_jobs, openssl_part, oneshot_part
    jobs = step_jobs(C, tier)
    for a in build.ALGOS:
        for cfg in CONFIGS:
            if cfg in REAL:
                if cfg == "builtin" or tier != "quick":
                    jobs.append((oneshot_part, (a, cfg, C.work, C.seed)))
            else:
                jobs.append((openssl_part, (a, cfg, C.work, C.seed, 2)))
    # the longest first
    jobs.sort(key=lambda j: j[1][0] != "sha512")
    C.map(jobs)
    C.bounds = [STEPS[tier], "built-in code: finalize after q*block+t bytes, for every t and every q with a total below 2^61, compresses exactly the rest of the message, 0x80, zeros and the bit length, minimally padded",
                "built-in code: the one-shot calculation of q*block+t bytes likewise", "OpenSSL configurations: two updates of any sizes and a one-shot call of any size reach the back end whole and in order"]
    C.outside = ["totals of 2^61 bytes and more", "that the compression function handles a run of many blocks as it handles up to three (thorough: eight) is decided in C01-C05 for those numbers of blocks only",
                 "OpenSSL's own length accounting"]
    C.assumptions = ["the compression function consumes exactly the whole blocks it is handed (decided in C01-C05)", "clang 18 -O0 IR represents the C semantics on x86-64"]
    return C


def C09(tier):
    C = Check("C09", tier, "symbolic execution of LLVM IR (clang's undefined-behaviour checks compiled in) over exact-size buffers and buffers of symbolic size, z3")
    from streams import openssl_part, oneshot_part, hmac_part, step_jobs
    jobs = []
    for a in build.ALGOS:
        B = spec.BLOCK[a]
        for cfg in CONFIGS:
            sc = []
            lens = range(0, 3 * B + 2) if cfg not in REAL or tier != "quick" else sorted(set(range(0, 2 * B + 2)) | {3 * B - 9, 3 * B - 1, 3 * B})
            for n in lens:
                sc.append(s_oneshot(a, n))
                sc.append(s_stream(a, [n], n % 2))
                sc.append(s_stream(a, [n // 2, n - n // 2], (n + 1) % 2, hs(a) + 8))
            for k in range(0, 2 * B + 2, 1 if tier != "quick" else 3):
                sc.append(s_hmac(a, k, k % 11))
            for k in (0, 1, B - 1, B, B + 1):
                sc.append(s_hmac(a, k, B + 3))
            for part in chunks(sc, 3 if cfg in REAL else 1):
                jobs.append((run_scripts, ("memory", cfg, [a], part, C.work, C.seed, {"nocompare": True, "ubsan": True})))
            jobs.append((hmac_part, (a, cfg, C.work, C.seed)))
            jobs.append((openssl_part, (a, cfg, C.work, C.seed, 2)) if cfg not in REAL else (oneshot_part, (a, cfg, C.work, C.seed)))
    C.map(jobs)
    C.bounds = ["digest and HMAC calls over exact-size read-only inputs and outputs with guard bytes: message lengths 0 to three blocks, key lengths 0 to two blocks, every content, six configurations; out-of-bounds or released or uninitialized memory use, writes to inputs, undefined arithmetic, leaks on any path",
                "HMAC with key and message of any (symbolic) size, one-shot calls of any size: reads stay within the stated sizes"]
    C.outside = ["reads by OpenSSL itself", "pointers formed but not used outside objects"]
    C.assumptions = ["objects are disjoint (no aliasing between output and inputs)", "clang 18's undefined-behaviour checks at -O0 flag every signed overflow, bad shift, division and array index"]
    return C


def C06(tier):
    C = Check("C06", tier, "symbolic execution of LLVM IR + SMT sweeping (z3)")
    jobs = []
    rnd = random.Random(C.seed)
    bounds = None
    for a in build.ALGOS:
        B = spec.BLOCK[a]
        pts = [0, 1, B - 1, B, B + 1]
        sp = [[x, y] for x in pts + [B // 2] for y in pts] + [[1, B - 2, 1], [B - 1, 1, 1], [1, B - 1, B], [3, 2 * B, 5], [B, 0, B], [0, 0, 5], [B - 1, 2, B - 1],
             [1] * 9, [B // 2] * 5, [2 * B + 1, B - 2, 1], [B - 9, 9], [B - 8, 8, 0], [B - 9, 1, 0]]
        extra = 12 if tier == "quick" else 150
        for _ in range(extra):
            k = rnd.choice([2, 3, 4, 5])
            sp.append([rnd.choice(pts + [rnd.randrange(2 * B)] * 4) for _ in range(k)])
        full = sp
        if tier != "quick":
            full = sp + [[x, y] for x in range(0, B + 1) for y in (1, B - 1, B, B + 1)]
        for cfg in CONFIGS:
            use = full if cfg in REAL else full + [[x, y] for x in range(0, 2 * B + 1, 3) for y in (1, B, 2 * B - 1)]
            sc = [s_stream(a, p, k % 2) for k, p in enumerate(use)]
            sc += [s_history(a, "stream", x, y) for x, y in ((5, 3), (B - 3, 7), (2, B + 1))]
            for part in chunks(sc, (3 if cfg in REAL else 1) if tier == "quick" else 8):
                jobs.append((run_scripts, ("split", cfg, [a], part, C.work, C.seed)))
        bounds = len(full)
    from streams import step_jobs, openssl_part
    jobs = step_jobs(C, tier, ends=False) + jobs
    for a in build.ALGOS:
        for cfg in CONFIGS:
            if cfg not in REAL:
                jobs.append((openssl_part, (a, cfg, C.work, C.seed, 3 if tier == "quick" else 6)))
    C.map(jobs)
    C.bounds = ["%d split patterns of up to 9 updates per algorithm (every pattern over 0, 1, block-1, block, block+1 for two updates, plus patterns drawn with VERIF_SEED), all byte values, six configurations; three contexts one after the other" % bounds,
                STEPS[tier], "OpenSSL configurations: %d updates of arbitrary (symbolic) sizes and a one-shot call of any size reach the back end whole and in order" % (3 if tier == "quick" else 6)]
    C.outside = ["OpenSSL's own buffering", "totals of 2^61 bytes and more"]
    C.assumptions = ["OpenSSL's digest primitives compute the standards and are split-independent"]
    return C


def C07(tier):
    C = Check("C07", tier, "symbolic execution of LLVM IR + SMT sweeping (z3) against RFC 2104")
    jobs = []
    for a in build.ALGOS:
        B, H = spec.BLOCK[a], spec.SIZE[a]
        for cfg in CONFIGS:
            if cfg in REAL:
                kl = [0, 1, H - 1, H, H + 1, B - 1, B, B + 1, 2 * B] if tier == "quick" else sorted(set(list(range(0, B + 3)) + [2 * B - 1, 2 * B, 2 * B + 1, 3 * B]))
                sc = [s_hmac(a, k, n) for k in kl for n in ((0, 3, B) if k in (B, B + 1, 5) else (3,))]
                sc += [s_history(a, "hmac", x, y) for x, y in ((5, 3), (2, B + 1))]
                for part in chunks(sc, 2 if tier == "quick" else 8):
                    jobs.append((run_scripts, ("hmac", cfg, [a], part, C.work, C.seed)))
            else:
                kl = range(0, 2 * B + 3) if tier == "quick" else range(0, 5 * B)
                sc = [s_hmac(a, k, n) for k in kl for n in ((0, 1, 5, B - 1, B, B + 1, 2 * B + 7) if k in (0, B - 1, B, B + 1) else (k % 7,))]
                sc += [s_history(a, "hmac", x, y) for x, y in ((5, 3), (B + 2, 7), (2, B + 1))]
                jobs.append((run_scripts, ("hmac", cfg, [a], sc, C.work, C.seed)))
    from streams import hmac_part
    for a in build.ALGOS:
        for cfg in CONFIGS:
            jobs.append((hmac_part, (a, cfg, C.work, C.seed)))
    C.map(jobs)
    C.bounds = ["six configurations: every key size and every message size up to the maximum (symbolic), with the digest as an uninterpreted function of the bytes it is handed (built-in: context calls by their contract): the pads, the data digested and the result are RFC 2104's",
                "built-in: key lengths around 0, digest size, block size and twice the block size (thorough: all up to block+2); OpenSSL configurations: every key length 0..%s; message lengths 0..2*block+7; all byte values; three calculations one after the other" % ("2*block+2" if tier == "quick" else "5*block")]
    C.outside = ["the digests of longer keys and messages themselves (C01-C06, C08)"]
    C.assumptions = ["OpenSSL's digest primitives compute the standards", "clang 18 -O0 IR represents the C semantics on x86-64"]
    return C


BIG = [1 << 63, (1 << 63) + 1, (1 << 64) - 1]
BAD = {"ret": -1}


def bad_ops(a, cfg, st):
    """Calls that must be refused, given context slot 0 is initialized, slot 1 empty."""
    H = hs(a)
    out = []
    for api in (0, 1):
        out += [("init", -1, a, api), ("init", 0, a, api), ("free", -1, a, api)]
        out += [("upd", -1, a, api, ("m", 0), 3), ("upd", 1, a, api, ("m", 0), 3), ("upd", 0, a, api, "NULL", 3), ("upd", 0, a, api, "NULL", 0),
                ("upd", 0, a, api, ("m", 0), "big"), ("upd", -1, a, api, "NULL", 0)]
        out += [("fin", -1, a, api, "h", H), ("fin", 1, a, api, "h", H), ("fin", 0, a, api, "NULL", H), ("fin", 0, a, api, "h", "small"), ("fin", 0, a, api, "h", "big")]
    out += [("calc", a, "NULL", 3, "h", H), ("calc", a, ("m", 0), 3, "NULL", H), ("calc", a, ("m", 0), "big", "h", H), ("calc", a, ("m", 0), 3, "h", "small"), ("calc", a, ("m", 0), 3, "h", "big"),
            ("hmac", a, "NULL", 3, ("m", 0), 3, "h", H), ("hmac", a, ("k", 0), 3, "NULL", 3, "h", H), ("hmac", a, ("k", 0), 3, ("m", 0), 3, "NULL", H),
            ("hmac", a, ("k", 0), "big", ("m", 0), 3, "h", H), ("hmac", a, ("k", 0), 3, ("m", 0), "big", "h", H), ("hmac", a, ("k", 0), 3, ("m", 0), 3, "h", "small"),
            ("hmac", a, ("k", 0), 3, ("m", 0), 3, "h", "big")]
    return out


def sym(rn, kind, a, tag):
    """A symbolic size over the whole invalid range."""
    E = rn.E
    v = E.st.var("size_%s_%s" % (kind, tag), 64)
    X = E.X
    c = X.icmp("ult", 64, v, hs(a)) if kind == "small" else X.icmp("ugt", 64, v, (1 << 63) - 1)
    if not X.decide(c):
        raise PathLimit("outside the range")
    return v


def bad_scripts(a, cfg):
    res = []
    B = spec.BLOCK[a]
    L = 5
    for k, op in enumerate(bad_ops(a, cfg, None)):
        def late(rn, op=op, k=k):
            o = tuple(sym(rn, x, a, str(k)) if x in ("big", "small") else x for x in op)
            return o, dict(BAD, null=False) if op[0] == "init" and op[1] == 0 else dict(BAD, null=True)
        ops = [(("init", 0, a, 1), OK), (("free", 1, a, 0), {"ret": 1, "null": True}), (("upd", 0, a, 1, ("m", 0), L), OK),
               (late, None),
               (("upd", 0, a, 0, ("m", 0), 0), OK), (("upd", 0, a, 1, ("m", L), B), OK),
               (("fin", 0, a, 1, "h", hs(a) + 8), dg(a, [("m", 0, L + B)])), (("free", 0, a, 1), OK), (("free", 0, a, 0), OK)]
        res.append(("refused call %r inside a history" % (op,), {"m": ("in", L + B), "k": ("in", 3), "h": ("out", hs(a) + 8)}, ops))
    # a size larger than the digest is fine: only the digest bytes are written
    res.append(s_stream(a, [4], 0, hs(a) + 8))
    return res


def C10(tier):
    C = Check("C10", tier, "symbolic execution of LLVM IR + SMT (z3)")
    jobs = []
    for a in build.ALGOS:
        for cfg in CONFIGS:
            sc = bad_scripts(a, cfg)
            for part in chunks(sc, 2 if cfg in REAL else 1):
                jobs.append((run_scripts, ("arguments", cfg, [a], part, C.work, C.seed)))
    C.map(jobs)
    C.bounds = ["every public call with each pointer argument absent, sizes over the whole invalid ranges (symbolic: above the maximum, below the digest size), inside a history of updates; all message bytes"]
    C.outside = ["two invalid arguments at once beyond the combinations listed"]
    C.assumptions = ["libcerror only records errors"]
    return C


def fault_scripts(a, cfg):
    B = spec.BLOCK[a]
    res = []
    for kn, n in ((3, 4), (B, 4), (B + 3, 4), (B + 3, 0)):
        res.append(s_hmac(a, kn, n))
    res.append(s_oneshot(a, 5))

    def after_init(op, exp):
        def f(rn):
            # the later calls are made only when the context exists
            v = rn.E.X.ld(rn.slots[0], 8, 64)
            if type(v) is int and v == 0:
                return None, None
            return op, exp
        return f

    def after_ok(op, exp):
        def f(rn):
            if any(t["failed"] for t in rn.trace):
                return None, None
            return op, exp
        return f
    for api in (0, 1):
        ops = [(("init", 0, a, api), OK), (after_ok(("upd", 0, a, api, ("m", 0), 5), OK), None), (after_ok(("fin", 0, a, api, "h", hs(a)), dg(a, [("m", 0, 5)])), None),
               (("free", 0, a, api), OK)]
        res.append(("life cycle with faults (api %d)" % api, {"m": ("in", 5), "h": ("out", hs(a) + 8)}, ops))
    return res


def C11(tier):
    C = Check("C11", tier, "symbolic execution of LLVM IR with symbolic faults + SMT (z3)")
    jobs = []
    for a in build.ALGOS:
        for cfg in CONFIGS:
            sc = fault_scripts(a, cfg)
            jobs.append((run_scripts, ("faults", cfg, [a], sc, C.work, C.seed, {"faults": True})))
    C.map(jobs)
    C.bounds = ["every subset of failing allocations and OpenSSL operations during initialize/update/finalize/free, one-shot and HMAC (keys shorter than, equal to and longer than a block)"]
    C.outside = ["failures of memcpy/memset stand-ins (they cannot fail)"]
    C.assumptions = ["OpenSSL's context constructor, init, update and final may each fail at any call; its destructor releases what it owns"]
    return C


def all_interleavings(n, m):
    def go(i, j):
        if i == n and j == m:
            yield []
            return
        if i < n:
            for r in go(i + 1, j):
                yield [0] + r
        if j < m:
            for r in go(i, j + 1):
                yield [1] + r
    return list(go(0, 0))


def s_interleave(a, b, order, na, nb_, oneshot=None):
    """Two life cycles, one per slot, merged in the given order."""
    def cyc(s, x, parts, mb, hb):
        ops = [(("init", s, x, 1), OK)]
        o = 0
        for n in parts:
            ops.append((("upd", s, x, 1, (mb, o), n), OK))
            o += n
        ops.append((("fin", s, x, 1, hb, hs(x)), dg(x, [(mb, 0, o)])))
        ops.append((("free", s, x, 1), OK))
        return ops
    A, Bc = cyc(0, a, na, "m", "h"), cyc(1, b, nb_, "n", "g")
    ops, i, j = [], 0, 0
    for d in order:
        if d == 0:
            ops.append(A[i])
            i += 1
        else:
            ops.append(Bc[j])
            j += 1
    if oneshot is not None:
        ops.insert(oneshot, (("calc", a, ("n", 0), 2, "c", hs(a)), dg(a, [("n", 0, 2)])))
        ops.insert(oneshot + 1, (("hmac", b, ("m", 0), 2, ("n", 0), 2, "c2", hs(b)), {"ret": 1, "out": ("hmac", b, ("m", 0, 2), [("n", 0, 2)])}))
    bufs = {"m": ("in", sum(na)), "n": ("in", sum(nb_)), "h": ("out", hs(a) + 4), "g": ("out", hs(b) + 4), "c": ("out", hs(a)), "c2": ("out", hs(b))}
    return ("interleaving %s of %s(%s) and %s(%s)" % ("".join(map(str, order)), a, na, b, nb_), bufs, ops)


def C13(tier):
    C = Check("C13", tier, "symbolic execution of LLVM IR + SMT sweeping (z3)")
    jobs = []
    for a in build.ALGOS:
        B = spec.BLOCK[a]
        orders = all_interleavings(5, 5) if tier != "quick" else all_interleavings(4, 4)
        for cfg in CONFIGS:
            full = orders
            if cfg in REAL and tier == "quick":
                full = orders[::4]
            pa, pb = ([B - 1, 2], [3, B + 1]) if tier != "quick" else ([B + 3], [5])
            sc = [s_interleave(a, a, o, pa, pb, (k % 7) if k % 9 == 0 else None) for k, o in enumerate(full)]
            for part in chunks(sc, 1 if tier == "quick" else 4):
                jobs.append((run_scripts, ("interleaving", cfg, [a], part, C.work, C.seed, {"static": True})))
    for k, a in enumerate(build.ALGOS):
        for b in build.ALGOS[k + 1:]:
            for cfg in CONFIGS:
                os_ = all_interleavings(4, 4)[::9 if tier == "quick" else 2]
                sc = [s_interleave(a, b, o, [7], [9]) for o in os_]
                jobs.append((run_scripts, ("interleaving", cfg, [a, b], sc, C.work, C.seed, {"static": True})))
    for a in build.ALGOS:
        B = spec.BLOCK[a]
        for cfg in CONFIGS:
            sc = [s_hmac(a, k, n) for k, n in ((0, 0), (3, B + 1), (B, 1), (B + 2, 3))] + [s_oneshot(a, n) for n in (0, B - 1, 2 * B + 1)]
            sc += [s_history(a, kind, 5, B + 1) for kind in ("calc", "stream", "hmac")]
            jobs.append((run_scripts, ("shared data", cfg, [a], sc, C.work, C.seed, {"static": True})))
    C.map(jobs)
    C.bounds = ["two contexts of one algorithm: %s interleavings of their operations (API-call granularity) with one-shot calls in between; pairs of algorithms; all message bytes; no write to any static object on any path, also of one-shot and HMAC calls and of calls one after the other" % ("all" if tier != "quick" else "70 (OpenSSL) / every fourth (built-in)")]
    C.outside = ["three or more contexts; instruction-level interleaving is covered only through the absence of writes to shared objects"]
    C.assumptions = ["OpenSSL is thread-safe for distinct contexts"]
    return C


def overlap_scripts(a, full):
    """Results written over inputs, keys over messages, buffers changed between two updates."""
    B, H = spec.BLOCK[a], hs(a)
    res = []
    N = 3 * B + 2 * H

    def calc(n, i, o):
        return (("calc", a, ("b", i), n, ("b", o), H), dg(a, [("b", i, n)]))

    def hm(k, kn, m, n, o):
        return (("hmac", a, k, kn, m, n, o, H), {"ret": 1, "out": ("hmac", a, k + (kn,), [m + (n,)])})
    lens = [0, 1, H, B - 1, B, B + 3, 2 * B + 1] if full else [1, H, B, B + 3]
    for n in lens:
        for o in sorted(set([H, H + 1, H - 1, max(0, H + n - H), H + n - 1, H + n // 2, 1])):
            if 0 <= o <= N - H:
                res.append(("result over the input: %d bytes at %d, result at %d" % (n, H, o), {"b": ("out", N)}, [calc(n, H, o)]))
    res.append(("digest of the digest, in place", {"b": ("out", H)}, [calc(H, 0, 0), calc(H, 0, 0)]))
    for kn, n in ((H, H), (H, B + 3), (B, 5), (B + 2, H), (B + 2, B)) if full else ((H, H), (B + 2, H), (5, B + 1)):
        bufs = {"b": ("out", N), "c": ("out", N)}
        for what, ops in (("the key", [hm(("b", 0), kn, ("c", 0), n, ("b", 0))]), ("the message", [hm(("b", 0), kn, ("c", 0), n, ("c", 0))]),
                          ("key and message, which are one buffer", [hm(("b", 0), kn, ("b", 0), n, ("b", 0))]), ("the end of the key", [hm(("b", 0), kn, ("c", 0), n, ("b", kn - 1))]),
                          ("the end of the message", [hm(("b", 0), kn, ("c", 1), n, ("c", n))]), ("the middle of both", [hm(("b", 0), kn, ("b", kn // 2), n, ("b", kn // 2 + 1))])):
            res.append(("HMAC over %s, key %d message %d" % (what, kn, n), bufs, ops))
    for x, y in ((5, 3), (H, H), (B - 1, 2), (B + 1, B)):
        for api in (0, 1):
            # an update takes what the buffer holds during the call
            ops = [(("init", 0, a, api), OK), (("upd", 0, a, api, ("b", 0), x), OK), (("calc", a, ("c", 0), y, ("b", 0), H), dg(a, [("c", 0, y)])), (("upd", 0, a, api, ("b", 0), y), OK),
                   (("calc", a, ("c", 1), y, ("b", 1), H), dg(a, [("c", 1, y)])), (("fin", 0, a, api, ("b", 0), H), {"ret": 1, "out": ("stream", a, 0)}), (("free", 0, a, api), OK)]
            res.append(("buffer changed between updates of %d and %d bytes (api %d)" % (x, y, api), {"b": ("out", N), "c": ("out", N)}, ops))
    return res


def C15(tier):
    C = Check("C15", tier, "symbolic execution of LLVM IR + SMT sweeping (z3)")
    jobs = []
    for a in build.ALGOS:
        for cfg in CONFIGS:
            sc = overlap_scripts(a, tier != "quick" or cfg not in REAL)
            for part in chunks(sc, (2 if tier == "quick" else 4) if cfg in REAL else 1):
                jobs.append((run_scripts, ("overlap", cfg, [a], part, C.work, C.seed)))
    jobs.sort(key=lambda j: (j[1][1] not in REAL, j[1][2] != ["sha512"]))
    C.map(jobs)
    C.bounds = ["results at, before, inside, across the end of and behind the input, the key and the message, key and message in one buffer; digest of a digest in place; buffers changed between updates, finalize into them: all byte values, six configurations, message lengths to two blocks + 1, keys to block + 2"]
    C.outside = ["longer messages", "what OpenSSL does with a result over its own input (the library hands it separate calls)"]
    C.assumptions = ["OpenSSL's update reads its input during the call only"]
    return C


# ------------------------------------------------------------------ erasure
def support(E, t, memo):
    """Names of the inputs a term depends on."""
    if type(t) is int:
        return frozenset()
    r = memo.get(t.id)
    if r is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op == "var":
                memo[x.id] = frozenset([x.name.rstrip("0123456789")])
                stack.pop()
                continue
            pend = [y for y in x.args if type(y) is not int and y.id not in memo]
            if pend:
                stack.extend(pend)
                continue
            s = frozenset()
            for y in x.args:
                if type(y) is not int:
                    s |= memo[y.id]
            memo[x.id] = s
            stack.pop()
        r = memo[t.id]
    return r


def wipe_hook(E, rn):
    memo = {}
    X = E.X

    def on_free(o):
        # memory the HMAC calculation itself allocated (not the digest contexts)
        if not any("calculate_hmac" in f for f in o.at) or any("initialize" in f for f in o.at):
            return
        for i, c in enumerate(o.mem):
            if c is None or type(c) is int:
                continue
            s = X.cell(c)
            sup = support(E, s, memo)
            if any(n.startswith(("k_", "uf_")) for n in sup):
                raise Violation("byte %d of released memory (%d bytes) still depends on the key" % (i, o.size), E.model(None))
    X.user["on_free"] = on_free


def wipe_confirm(cfg, work, bufs, trace, env, opts, v, E):
    """On the real code: blocks released inside the HMAC call must not contain key-derived bytes: compared over two
    keys, a released block of the pads must be the same (zero) for both."""
    outs = []
    text = out = ""
    for x in (0, 0xff):
        env2 = dict(env)
        for n in list(env2):
            if n.startswith("k_"):
                env2[n] = env2[n] ^ x
        bad, text, out = native_check(cfg, work, bufs, trace, env2, dict(opts, tracefree=True))
        outs.append([l.split() for l in out.split("\n") if l.startswith(("freed", "context "))])
        if bad and not any("freed" in b for b in bad):
            return bad, text, out
    B = 64 if trace[-1]["op"][1] != "sha512" else 128
    res = []
    for p, q in zip(outs[0], outs[1]):
        if p[0] == "freed" and len(p) > 2 and len(q) > 2 and len(p[2]) == 2 * B and p[2] != q[2]:
            res.append("released block %s differs between two keys: %s... / %s..." % (p[1], p[2][:32], q[2][:32]))
    return res, text, out


def ctx_wipe_part(a, cfg, work, seed, lens):
    """After a successful finalize no byte of the context depends on the message, and all are zero."""
    R = Result("context erasure %s %s" % (cfg, a))
    E = Engine(cfg, [a], os.path.join(work, "p%d" % os.getpid()), seed)
    for n in lens:
        bufs = {"m": ("in", n), "h": ("out", hs(a))}
        ops = [(("init", 0, a, 1), OK), (("upd", 0, a, 1, ("m", 0), n), OK), (("fin", 0, a, 1, "h", hs(a)), dg(a, [("m", 0, n)]))]
        rn = Runner(E, bufs, {})

        def scen(E):
            rn.setup()
            for o, e in ops:
                rn.op(o, e)
            c = E.X.ld(rn.slots[0], 8, 64)
            for i, b in enumerate(c.o.mem):
                b = 0 if b is None else E.X.cell(b)
                if not (type(b) is int and b == 0) and not (type(b) is not int and E.st.prove_eq(b, 0)):
                    raise Violation("byte %d of the finalized context is not erased" % i, E.model(None))
            rn.op(("free", 0, a, 1), OK)
        try:
            R.paths += E.explore(scen)
            R.scen += 1
        except Violation as v:
            bad, text, out = native_check(cfg, work, bufs, rn.trace, v.env or {}, {"tracefree": True, "leak": False})
            R.replays += 1
            cx = [l for l in out.split("\n") if l.startswith("context ")]
            if cx and set(cx[0].split()[1]) != {"0"}:
                bad.append("context after finalize: %s" % cx[0].split()[1][:120])
            R.violations.append({"key": "%s:%s:context" % (cfg, a), "what": "[%s %s] message of %d bytes: %s; real code: %s" % (cfg, a, n, v.what, "; ".join(bad)[:300]),
                                 "confirmed": bool(bad), "replay_input": text, "replay_output": out[-3000:]})
            break
        except (Undecided, Unsupported, Budget) as e:
            R.undecided.append("%s: %s" % (R.part, e))
            break
    R.queries = dict(E.st.stats)
    R.funcs = set(E.X.funcs_run)
    return R


def C12(tier):
    C = Check("C12", tier, "symbolic execution of LLVM IR with symbolic faults + SMT (z3), dependency of released memory")
    jobs = []
    for a in build.ALGOS:
        B = spec.BLOCK[a]
        kl = [3, B - 1, B, B + 3] if tier == "quick" else list(range(0, B + 2, 7)) + [B - 1, B, B + 1, 2 * B]
        for cfg in CONFIGS:
            sc = [s_hmac(a, k, 4) for k in kl]
            jobs.append((run_scripts, ("erasure", cfg, [a], sc, C.work, C.seed, {"faults": True, "confirm": wipe_confirm}, wipe_hook)))
            if cfg in REAL:
                lens = [1, B - 9, B, B + 5, 2 * B - 1] if tier == "quick" else [1, 7, B - 17, B - 9, B - 8, B - 1, B, B + 1, B + 5, 2 * B - 17, 2 * B - 1, 2 * B, 3 * B]
                jobs.append((ctx_wipe_part, (a, cfg, C.work, C.seed, lens)))
    C.map(jobs)
    C.bounds = ["HMAC with key lengths around the block size, every subset of failing allocations and OpenSSL operations, all key and message bytes: every block released by the calculation is free of key-derived bytes",
                "finalized context of the built-in implementation: all bytes zero, message lengths around the padding boundaries"]
    C.outside = ["stack residue; dead-store elimination by an optimising compiler (the check follows the C semantics of the source)", "OpenSSL's own memory"]
    C.assumptions = ["the abstract machine of the source: memory set before release is not optimised away"]
    return C


def run(pid, tier):
    if pid in AID:
        return digest_check(pid, tier)
    return globals()[pid](tier)
