"""C06/C08 (all sizes): update and finalize with symbolic sizes.  The compression function is replaced by a recorder; the
caller's data are objects of symbolic size whose bytes are functions of their offset, so one run covers every size
q*block+s for all q at once.  Placement of every byte, padding and length field are decided by z3."""
import os
import z3
import build, spec
from check import Result
from digest import Engine, Violation, Undecided
from irx import P, Obj, Unsupported, MemError, PathLimit, Budget, u64
from terms import Term

LIM = 1 << 61


class Streams(object):
    def __init__(self, E, a, cfg):
        self.E, self.a, self.cfg = E, a, cfg
        self.X, self.st = E.X, E.st
        self.B = spec.BLOCK[a]
        E.st.sweep = False
        self.LB = 16 if a == "sha512" else 8
        self.sh = self.B.bit_length() - 1
        self.real = cfg in ("builtin", "folded")
        fn = "libhmac_%s_context_transform" % a
        if self.real:
            if fn not in E.mod.funcs or len(E.mod.funcs[fn][0]) != 4:
                raise Unsupported("%s is not there to be replaced" % fn)
            E.X.ext[fn] = self.recorder
        self.fn = fn
        self.qmax = None

    # ---- small term helpers
    def op(self, o, *a):
        if o in ("eq", "ne", "ult", "ule", "ugt", "uge"):
            return self.X.icmp(o, 64, *a)
        return self.X.bop(o, 64, *a)

    def assume(self, c):
        if type(c) is int:
            if not c:
                raise PathLimit("assumption")
            return
        self.X.pc.append(c)

    def size(self, name, s, free=False):
        if free:
            q = self.st.var("n_" + name, 64)
            self.assume(self.op("ult", q, LIM))
            return q
        q = self.st.var("q_" + name, 64)
        self.assume(self.op("ule", q, (LIM >> self.sh) - 1 if self.qmax is None else self.qmax))
        if self.qmax is not None:
            q = self.X.concretize(q)
        return self.op("add", self.op("shl", q, self.sh), s)

    def data(self, name, size, base):
        o = Obj(0, "stream", name)
        o.size = size
        o.const = True
        self.base[o.id] = base
        self.sizes.append((name, size))
        return P(o, 0)

    def start(self):
        self.segs, self.pos, self.base, self.sizes = [], 0, {}, []
        self.slot = self.E.ptrcell(0, "slot")
        r = self.call("initialize", [self.slot])
        self.must_ret(r, 1, "initialize")
        self.ctx = self.X.ld(self.slot, 8, 64)

    def call(self, op, args):
        self.err = self.E.ptrcell(0, "error")
        return self.X.call("libhmac_%s_context_%s" % (self.a, op), args + [self.err])

    def must_ret(self, r, want, what):
        if type(r) is not int:
            self.X.must(self.X.icmp("eq", 32, r, want & 0xffffffff), "%s does not return %d" % (what, want))
        elif r != want & 0xffffffff:
            raise MemError("%s returned %d instead of %d" % (what, r - (1 << 32) if r >> 31 else r, want))

    def update(self, p):
        self.must_ret(self.call("update", [self.ctx, p, p.o.size]), 1, "an update with a valid buffer")

    def recorder(self, X, a):
        c, buf, size, err = a
        n = self.op("sub", size, self.op("urem", size, self.B))
        if type(buf) is not P:
            raise MemError("the compression function is handed %r" % (buf,))
        if buf.o.kind == "stream":
            X.chk_stream(buf, size, "read")
            self.segs.append(("run", self.pos, buf.o, u64(buf.off), n))
        else:
            if type(n) is not int:
                n = X.concretize(n)
            self.segs.append(("cells", self.pos, X.bytes_at(buf, n) if n else []))
        self.pos = self.op("add", self.pos, n)
        return n

    # ---- obligations
    def length_byte(self, total, k):
        sig = (self.LB - 1 - k) if self.a != "md5" else k
        if sig >= 8:
            return 0
        v = self.op("lshr", self.op("shl", total, 3), 8 * sig)
        return v & 255 if type(v) is int else self.st.mk("trunc", 8, v)

    def where_is(self, cell):
        """Message position a byte comes from, or None."""
        if type(cell) is Term:
            w = self.X.user.get("stream_cells", {}).get(cell.id)
            if w is not None:
                return self.op("add", self.base[w[0].id], w[1])
        return None

    def obligations(self, total):
        """(condition, position, what) that must all hold."""
        out = []
        for s in self.segs:
            if s[0] == "run":
                _, p, o, off, n = s
                out.append((self.op("eq", self.op("add", self.base[o.id], off), p), p, "a run of the data is compressed at its place"))
            else:
                _, p, cells = s
                for i, c in enumerate(cells):
                    at = self.op("add", p, i)
                    w = self.where_is(c)
                    if w is not None:
                        out.append((self.op("eq", w, at), at, "a byte of the data is compressed at its place"))
                        continue
                    if c is None:
                        out.append((0, at, "an undefined byte is compressed"))
                        continue
                    # padding: position relative to the end of the message is what counts
                    rel = self.op("sub", at, total)
                    out.append((self.op("ule", total, at), at, "a byte that is not the message's stands in its place"))
                    end = self.padded(total)
                    f = self.op("sub", end, self.LB)
                    want = 0
                    for k in range(self.LB):
                        lb = self.length_byte(total, k)
                        cnd = self.op("eq", at, self.op("add", f, k))
                        want = lb if cnd == 1 else (want if cnd == 0 else self.st.mk("ite", 8, cnd, lb, want))
                    c0 = self.op("eq", rel, 0)
                    want = 0x80 if c0 == 1 else (want if c0 == 0 else self.st.mk("ite", 8, c0, 0x80, want))
                    out.append((self.X.icmp("eq", 8, self.X.cell(c), want), at, "padding, terminator or length byte"))
        return out

    def padded(self, total):
        t = self.op("add", total, 1 + self.LB + self.B - 1)
        return self.op("sub", t, self.op("urem", t, self.B))

    def decide_all(self, obs):
        """One query for all obligations; the failing one on a model."""
        cs = []
        for c, at, what in obs:
            if type(c) is int:
                if not c:
                    self.failing = (at, what)
                    raise Violation(what, self.small_model())
            else:
                cs.append((c, at, what))
        if not cs:
            return
        s = self.X.inc()
        zs = self.st.zfull([c for c, _, _ in cs])
        self.st.stats["queries"] += 1
        import time
        t0 = time.time()
        r = str(s.check(z3.Or([z == 0 for z in zs if type(z) is not int] or [z3.BoolVal(False)])))
        self.st.stats["solver_s"] += time.time() - t0
        if r == "unknown":
            raise Undecided("no answer on the placement obligations")
        if r == "sat":
            env, m = self.small_model(z3.Or([z == 0 for z in zs if type(z) is not int]), True)
            m = m or s.model()
            for (c, at, what), z in zip(cs, zs):
                if type(z) is not int and m.eval(z, model_completion=True).as_long() == 0:
                    self.X.pc.append(self.X.nott(c))
                    self.failing = (at, what)
                    raise Violation(what, env)

    def small_model(self, extra=None, both=False):
        """A model with as little data as possible (the replay on the real code has to hold it)."""
        s = self.X.inc()
        vs = [v for n, v in self.st.vars.items() if n.startswith(("q_", "n_"))]
        zs = self.st.zfull(vs)
        for lim in [1, 3] + [1 << k for k in range(4, 63, 2)]:
            r = str(s.check(*([z3.ULE(z, lim) for z in zs] + ([extra] if extra is not None else []))))
            if r == "sat":
                m = s.model()
                env = {v.name: m.eval(z, model_completion=True).as_long() for v, z in zip(vs, zs)}
                return (env, m) if both else env
        return (None, None) if both else None

    def concrete(self, env, x):
        return self.st.evaluate([x], env)[0]

    def arrays(self):
        ty = self.E.mod.types.get("struct.libhmac_internal_%s_context" % self.a)
        if ty is None:
            return None
        lay = self.E.mod.layout(ty)[0]
        out = []
        for f, off in zip(ty[1], lay):
            if f[0] == "a" and f[2] == ("i", 8):
                out.append((off, f[1]))
        return out if len(out) == 1 else None


def replay(S, work, env, hist):
    """hist: list of size lists to try on the real code."""
    a, cfg, B = S.a, S.cfg, S.B
    d = os.path.join(work, "sr_%s_%s_%d" % (cfg, a, os.getpid()))
    os.makedirs(d, exist_ok=True)
    msgs = []
    if S.real:
        build.gen_headers(d, cfg)
        exe = os.path.join(d, "replay")
        fl = build.cflags(d, cfg) + ["-DALGO=%s" % a, '-DHDR="libhmac_%s_context.h"' % a, "-DBLOCK=%d" % B, "-DHASH=%d" % spec.SIZE[a],
                                     "-DLENBYTES=%d" % S.LB, "-DBIGENDIAN=%d" % (a != "md5")]
        objs = []
        for s in build.lib_sources([a]):
            o = os.path.join(d, os.path.basename(s) + ".o")
            build.must(["/usr/bin/gcc", "-g", "-O0", "-fPIC", "-fno-inline", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"] + fl + ["-c", s, "-o", o])
            build.must(["objcopy", "--weaken-symbol=" + S.fn, o])
            objs.append(o)
        build.must(["/usr/bin/gcc", "-g", "-O0", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"] + fl +
                   [os.path.join(build.VERIF, "harness", "stream_replay.c"), os.path.join(build.STUBS, "libcerror_native.c")] + objs + ["-o", exe])
        for h in hist:
            tot = sum(h)
            pad = (tot + 1 + S.LB + B - 1) // B * B
            w = sorted(set(x for x in list(range(0, 2 * B)) + list(range(max(0, tot - 2 * B), pad)) + [y for k in range(len(h)) for y in
                       range(max(0, sum(h[:k + 1]) - B), min(pad, sum(h[:k + 1]) + B))] if 0 <= x < pad))[:1000]
            rc, o, e = build.run([exe], timeout=300, inp=("%d %s %d %s\n" % (len(h), " ".join(map(str, h)), len(w), " ".join(map(str, w)))).encode())
            if "UNREPLAYABLE" in o:
                continue
            if rc != 0:
                msgs.append("updates of %s bytes: %s" % ("+".join(map(str, h)), "; ".join([l for l in (o + e).split("\n") if "FAIL" in l or "error" in l][:3]) or "end %d" % rc))
                break
    else:
        from digest import Native
        import hashlib, ctypes, mmap
        N = Native(cfg, [a], work)
        for h in hist:
            tot = sum(h)
            if tot > (1 << 33):
                continue
            mem = mmap.mmap(-1, max(tot, 1))
            for i in range(min(tot, 1 << 16)):
                mem[i] = (i * 131 + 7) & 255
            addr = ctypes.addressof(ctypes.c_char.from_buffer(mem))
            ctx = ctypes.c_void_p(0)
            out = ctypes.create_string_buffer(64)
            L = N.lib
            rs = [getattr(L, "libhmac_%s_context_initialize" % a)(ctypes.byref(ctx), None)]
            off = 0
            for n in h:
                rs.append(getattr(L, "libhmac_%s_context_update" % a)(ctx, ctypes.c_void_p(addr + off), ctypes.c_size_t(n), None))
                off += n
            rs.append(getattr(L, "libhmac_%s_context_finalize" % a)(ctx, out, ctypes.c_size_t(spec.SIZE[a]), None))
            want = hashlib.new(a)
            step = 1 << 20
            for i in range(0, tot, step):
                want.update(mem[i:min(i + step, tot)])
            if any(r != 1 for r in rs) or out.raw[:spec.SIZE[a]] != want.digest():
                msgs.append("updates of %s bytes: returned %r, digest %s instead of %s" % (h, rs, out.raw[:spec.SIZE[a]].hex(), want.hexdigest()))
                break
    return msgs


def drive(R, S, work, name, body, hist, max_paths=60):
    """body(): one scenario; hist(env): size lists of the counterexample."""
    E = S.E

    def scen(E):
        S.failing = None
        try:
            body()
        except MemError as e:
            raise Violation("%s" % e, S.small_model())
    try:
        R.paths += E.explore(scen, max_paths)
        R.scen += 1
        return True
    except Violation as v:
        if v.env is None:
            R.undecided.append("%s %s: no model for: %s" % (R.part, name, v.what))
            return False
        try:
            hs = hist(v.env)
            msgs = replay(S, work, v.env, hs)
        except build.BuildError as e:
            hs, msgs = [], []
            R.undecided.append("%s: the replay does not build: %s" % (R.part, str(e)[-500:]))
        R.replays += 1
        R.violations.append({"key": "%s:%s:%s" % (S.cfg, S.a, v.what.split(":")[0][:60]), "what": "[%s %s] %s: %s; real code: %s"
                             % (S.cfg, S.a, name, v.what, "; ".join(msgs)[:400]), "confirmed": bool(msgs), "histories": hs, "model": v.env})
        return False
    except (Undecided, Unsupported, Budget) as e:
        R.undecided.append("%s %s: %s: %s" % (R.part, name, type(e).__name__, e))
        return None


def variants(S, hs):
    B = S.B
    out = [list(hs)]
    if hs:
        a = hs[0]
        out.append([B - 1, a + B - (B - 1)] + list(hs[1:]))
        out.append([B - 1, a + 2 * B - (B - 1)] + list(hs[1:]))
        if a:
            out.append([1, a - 1 + B] + list(hs[1:]))
        # the same state without anything following, and one more whole block
        out.append([B - 1, a + B - (B - 1)] + list(hs[1:]) + [B])
    return out


def step_part(a, cfg, work, seed, pairs, fins, qmax=None):
    """U(r,s): from the state after any q0*B+r bytes (bytes of the block that are not in use arbitrary), an update of any
    q1*B+s bytes compresses the right bytes at the right positions and leads to the state of the sum of both sizes.
    F(t): from that state finalize compresses exactly the standard's padding."""
    R = Result("sizes %s %s %d steps, %d ends%s" % (cfg, a, len(pairs), len(fins), "" if qmax is None else " (up to %d blocks)" % qmax))
    E = Engine(cfg, [a], os.path.join(work, "p%d" % os.getpid()), seed)
    try:
        S = Streams(E, a, cfg)
    except Unsupported as e:
        R.undecided.append("%s: %s" % (R.part, e))
        return R
    S.qmax = qmax
    X = E.X
    arr = S.arrays()
    if arr is None:
        R.notes.append("%s: the context's block not recognised: unused bytes are not made arbitrary, no induction over updates" % R.part)

    def dead(r):
        return [] if arr is None else list(range(arr[0][0] + r, arr[0][0] + arr[0][1]))

    def havoc(c, r):
        for i in dead(r):
            c.o.mem[i] = E.st.var("junk_%d" % i, 8)

    def first(r):
        S.start()
        n0 = S.size("a", r)
        S.assume(S.op("ult", n0, LIM))
        S.update(S.data("a", n0, 0))
        havoc(S.ctx, r)
        return n0

    def finalize(total):
        out = E.out(spec.SIZE[a])
        S.must_ret(S.call("finalize", [S.ctx, out, spec.SIZE[a]]), 1, "finalize")
        obs = S.obligations(total)
        obs.append((S.op("eq", S.pos, S.padded(total)), total, "the padded message is compressed in whole and nothing more"))
        S.decide_all(obs)

    def step(r, s):
        def body():
            n0 = first(r)
            n1 = S.size("b", s)
            tot = S.op("add", n0, n1)
            S.assume(S.op("ult", tot, LIM))
            S.assume(S.op("ult", n1, LIM))
            S.update(S.data("b", n1, n0))
            t = (r + s) % S.B
            obs = S.obligations(tot)
            obs.append((S.op("eq", S.pos, S.op("sub", tot, t)), tot, "all whole blocks so far are compressed"))
            S.decide_all(obs)
            if arr is not None:
                c1 = S.ctx
                save = (S.segs, S.pos, S.base, S.sizes)
                keep = dict(S.base)
                S.start()
                S.base.update(keep)
                S.update(S.data("t", tot, 0))
                c2 = S.ctx
                S.base.update(keep)
                skip = set(dead(t))
                obs = []
                for i in range(c1.o.size):
                    if i in skip:
                        continue
                    x, y = c1.o.mem[i], c2.o.mem[i]
                    if x is None and y is None:
                        continue
                    x = 0 if x is None else X.cell(x)
                    y = 0 if y is None else X.cell(y)
                    px, py = S.where_is(x), S.where_is(y)
                    if px is not None and py is not None:
                        obs.append((S.op("eq", px, py), tot, "the buffered bytes are the last ones of the data"))
                    elif px is not None or py is not None:
                        obs.append((0, tot, "the state holds a byte of the data where one update of the total leaves none"))
                    elif x is not y:
                        obs.append((X.icmp("eq", 8, x, y), tot, "the state after two updates is the state after one of the total"))
                S.decide_all(obs)
            else:
                finalize(tot)
        return body

    def end(t):
        def body():
            finalize(first(t))
        return body

    bad = 0
    for r, s in pairs:
        def hist(env, r=r, s=s):
            h = [env.get("q_a", 0) * S.B + r, env.get("q_b", 0) * S.B + s]
            return variants(S, h)
        ok = drive(R, S, work, "update of q*%d+%d bytes after q*%d+%d" % (S.B, s, S.B, r), step(r, s), hist)
        bad += ok is not True
        if len(R.violations) >= 2 or bad > 3:
            break
    for t in fins:
        ok = drive(R, S, work, "finalize after q*%d+%d bytes" % (S.B, t), end(t), lambda env, t=t: variants(S, [env.get("q_a", 0) * S.B + t]))
        bad += ok is not True
        if len(R.violations) >= 3 or bad > 6:
            break
    R.queries = dict(E.st.stats)
    R.funcs = set(E.X.funcs_run) - {S.fn}
    # an unbounded loop over blocks outside the compression function: decide a bounded number of blocks instead
    if qmax is None and any("paths" in u or "limit" in u for u in R.undecided) and not R.violations:
        R2 = step_part(a, cfg, work, seed, pairs, fins, 2)
        R2.notes.append("blocks are handled one by one here: decided for up to 2 whole blocks per update only")
        return R2
    return R


def openssl_part(a, cfg, work, seed, nupd):
    """Updates of arbitrary sizes reach the back end as they are."""
    R = Result("sizes %s %s, %d updates of any size" % (cfg, a, nupd))
    E = Engine(cfg, [a], os.path.join(work, "p%d" % os.getpid()), seed)
    S = Streams(E, a, cfg)
    X = E.X

    def check_runs(data, total):
        pos = 0
        obs = []
        for d in data:
            if isinstance(d, tuple) and d[0] == "run":
                _, o, off, n = d
                obs.append((S.op("eq", S.op("add", S.base[o.id], u64(off)), pos), pos, "data reaches the back end in order"))
                pos = S.op("add", pos, n)
            else:
                w = S.where_is(d)
                obs.append((0 if w is None else S.op("eq", w, pos), pos, "data reaches the back end in order"))
                pos = S.op("add", pos, 1)
        obs.append((S.op("eq", pos, total), total, "all data reaches the back end"))
        S.decide_all(obs)

    def body():
        X.user["runs"] = True
        S.start()
        tot = 0
        for i in range(nupd):
            n = S.size("u%d" % i, 0, free=True)
            p = S.data("u%d" % i, n, tot)
            tot = S.op("add", tot, n)
            S.assume(S.op("ult", tot, LIM))
            S.update(p)
        out = E.out(spec.SIZE[a])
        S.must_ret(S.call("finalize", [S.ctx, out, spec.SIZE[a]]), 1, "finalize")
        fin = X.user.get("final_data", [])
        if len(fin) != 1 or fin[0][0] != a:
            raise MemError("finalize does not ask the back end for the digest once")
        check_runs(fin[0][1], tot)
    drive(R, S, work, "%d updates" % nupd, body, lambda env: variants(S, [env.get("n_u%d" % i, 0) for i in range(nupd)]))

    def oneshot():
        X.user["runs"] = True
        S.segs, S.pos, S.base, S.sizes = [], 0, {}, []
        n = S.size("m", 0, free=True)
        p = S.data("m", n, 0)
        out = E.out(spec.SIZE[a])
        r = E.call("libhmac_%s_calculate" % a, p, n, out, spec.SIZE[a])
        S.must_ret(r, 1, "calculate")
        fin = X.user.get("final_data", [])
        if len(fin) != 1 or fin[0][0] != a:
            raise MemError("the calculation does not ask the back end for the digest once")
        check_runs(fin[0][1], n)
    drive(R, S, work, "one-shot", oneshot, lambda env: [[env.get("n_m", 0)]])
    R.queries = dict(E.st.stats)
    R.funcs = set(E.X.funcs_run)
    return R


def oneshot_part(a, cfg, work, seed):
    """The one-shot calculation over a buffer of any size compresses the whole padded message (built-in code)."""
    R = Result("one-shot of any size %s %s" % (cfg, a))
    E = Engine(cfg, [a], os.path.join(work, "p%d" % os.getpid()), seed)
    try:
        S = Streams(E, a, cfg)
    except Unsupported as e:
        R.undecided.append("%s: %s" % (R.part, e))
        return R

    def one(t):
        def body():
            S.segs, S.pos, S.base, S.sizes = [], 0, {}, []
            n = S.size("m", t)
            S.assume(S.op("ult", n, LIM))
            p = S.data("m", n, 0)
            out = E.out(spec.SIZE[a])
            r = E.call("libhmac_%s_calculate" % a, p, n, out, spec.SIZE[a])
            S.must_ret(r, 1, "calculate")
            obs = S.obligations(n)
            obs.append((S.op("eq", S.pos, S.padded(n)), n, "the padded message is compressed in whole and nothing more"))
            S.decide_all(obs)
            E.noleak("calculate")
        return body
    for t in range(S.B):
        if drive(R, S, work, "one-shot of q*%d+%d bytes" % (S.B, t), one(t), lambda env, t=t: [[env.get("q_m", 0) * S.B + t]]) is not True:
            break
    R.queries = dict(E.st.stats)
    R.funcs = set(E.X.funcs_run) - {S.fn}
    return R


def step_jobs(C, tier, ends=True):
    jobs = []
    for a in build.ALGOS:
        B = spec.BLOCK[a]
        LB = 16 if a == "sha512" else 8
        for cfg in ("builtin", "folded"):
            if tier == "quick":
                if cfg == "folded":
                    pairs = [(r, s) for r in (0, 1, B - 1) for s in (0, 1, B - 1)]
                else:
                    pairs = sorted(set((r, x % B) for r in range(B) for x in (0, 1, B - r - 1, B - r, B - r + 1, B - 1)))
            else:
                pairs = [(r, s) for r in range(B) for s in range(B)]
            fins = list(range(B)) if ends else []
            n = 1 if cfg == "folded" and tier == "quick" else (3 if tier == "quick" else 16)
            for k in range(n):
                jobs.append((step_part, (a, cfg, C.work, C.seed, pairs[k::n], fins[k::n])))
    return jobs


# ------------------------------------------------------------------ HMAC of any key and message size
def contract(E, a):
    """initialize/update/finalize/free of the context by their contract (decided by C01-C06, C08, C11): the digest of the
    data handed over."""
    H = spec.SIZE[a]

    def tbl(X):
        return X.user.setdefault("contract", {})

    def init(X, g):
        cur = X.ld(g[0], 8, 64)
        if not (type(cur) is int and cur == 0):
            X.call("libcerror_error_set", [g[1], 0, 0, 0])
            return 0xffffffff
        p = X.malloc(8, "context")
        tbl(X)[p.o.id] = {"data": [], "st": "open"}
        X.store(g[0], p, 8)
        return 1

    def get(X, p):
        X.chk(p, 1, "use")
        e = tbl(X).get(p.o.id)
        if e is None or e["st"] != "open":
            raise MemError("use of a context that is not open")
        return e

    def update(X, g):
        e = get(X, g[0])
        if type(g[1]) is int:
            X.call("libcerror_error_set", [g[3], 0, 0, 0])
            return 0xffffffff
        if X.decide(X.icmp("ugt", 64, g[2], (1 << 63) - 1)):
            X.call("libcerror_error_set", [g[3], 0, 0, 0])
            return 0xffffffff
        if g[1].o.kind == "stream":
            X.chk_stream(g[1], g[2], "read")
            e["data"] = e["data"] + [("run", g[1].o, g[1].off, g[2])]
        else:
            n = g[2] if type(g[2]) is int else X.concretize(g[2])
            e["data"] = e["data"] + (X.bytes_at(g[1], n) if n else [])
        return 1

    def finalize(X, g):
        e = get(X, g[0])
        if type(g[1]) is int or X.decide(X.icmp("ult", 64, g[2], H)) or X.decide(X.icmp("ugt", 64, g[2], (1 << 63) - 1)):
            X.call("libcerror_error_set", [g[3], 0, 0, 0])
            return 0xffffffff
        fd = X.user.setdefault("final_data", [])
        fd.append((a, list(e["data"])))
        e["st"] = "final"
        for k in range(H):
            X.store(P(g[1].o, g[1].off + k), X.st.var("md_%d_%d" % (len(fd), k), 8), 1)
        return 1

    def free(X, g):
        cur = X.ld(g[0], 8, 64)
        if type(cur) is P:
            tbl(X).pop(cur.o.id, None)
            X.free(cur)
            X.store(g[0], 0, 8)
        return 1
    for n, f in (("initialize", init), ("update", update), ("finalize", finalize), ("free", free)):
        for pre in ("context_", ""):
            E.X.ext["libhmac_%s_%s%s" % (a, pre, n)] = f


def hmac_part(a, cfg, work, seed):
    """HMAC for every key size and every message size at once."""
    R = Result("HMAC of any key and message size %s %s" % (cfg, a))
    E = Engine(cfg, [a], os.path.join(work, "p%d" % os.getpid()), seed)
    X, st = E.X, E.st
    B, H = spec.BLOCK[a], spec.SIZE[a]
    real = cfg in ("builtin", "folded")
    S = Streams.__new__(Streams)
    S.E, S.a, S.cfg, S.X, S.st, S.B, S.real, S.qmax = E, a, cfg, X, st, B, real, None
    st.sweep = False
    if real:
        contract(E, a)

    def seq(data, want, what):
        """data: cells and runs; want: list of cells, then optional (object, size) run."""
        cells, run = want
        obs = []
        if run is None and len(data) != len(cells):
            raise MemError("%s: %d bytes digested instead of %d" % (what, len(data), len(cells)))
        if len(data) < len(cells):
            raise MemError("%s: %d bytes digested before the data instead of %d" % (what, len(data), len(cells)))
        for i, c in enumerate(cells):
            d = data[i]
            if isinstance(d, tuple) and d[0] == "run":
                raise MemError("%s: data where the pad belongs" % what)
            obs.append((cell_eq(d, c), i, "%s: byte %d of what is digested" % (what, i)))
        pos = 0
        if run is not None:
            o, size = run
            for d in data[len(cells):]:
                if isinstance(d, tuple) and d[0] == "run":
                    if d[1] is not o:
                        raise MemError("%s: other data is digested" % what)
                    obs.append((S.op("eq", u64(d[2]), pos), pos, "%s: data is digested in order" % what))
                    pos = S.op("add", pos, d[3])
                else:
                    raise MemError("%s: additional bytes are digested" % what)
            obs.append((S.op("eq", pos, size), size, "%s: all data is digested" % what))
        S.decide_all(obs)

    def cell_eq(x, y):
        if x is None:
            return 0
        x = X.cell(x)
        if x is y:
            return 1
        if type(x) is int and type(y) is int:
            return int(x == y)
        return X.icmp("eq", 8, x, y)

    def body():
        X.user["runs"] = True
        S.segs, S.pos, S.base, S.sizes = [], 0, {}, []
        kn = S.size("key", 0, free=True)
        n = S.size("msg", 0, free=True)
        k = S.data("key", kn, 0)
        m = S.data("msg", n, 0)
        out = E.out(H + 3)
        r = E.call("libhmac_%s_calculate_hmac" % a, k, kn, m, n, out, H + 3)
        S.must_ret(r, 1, "calculate_hmac")
        fd = X.user.get("final_data", [])
        lng = X.decide(X.icmp("ult", 64, B, kn))
        if len(fd) != 2 + lng:
            raise MemError("%d digests are taken instead of %d" % (len(fd), 2 + lng))
        if lng:
            seq(fd[0][1], ([], (k.o, kn)), "key")
            K = [st.var("md_1_%d" % i, 8) for i in range(H)] + [0] * (B - H)
        else:
            v = X.concretize(kn)
            K = X.stream_bytes(k.o, 0, v) + [0] * (B - v)
        seq(fd[lng][1], ([X.bop("xor", 8, x, 0x36) for x in K], (m.o, n)), "inner")
        seq(fd[1 + lng][1], ([X.bop("xor", 8, x, 0x5c) for x in K] + [st.var("md_%d_%d" % (1 + lng, i), 8) for i in range(H)], None), "outer")
        S.decide_all([(cell_eq(x, st.var("md_%d_%d" % (2 + lng, i), 8)), i, "result byte %d" % i) for i, x in enumerate(X.bytes_at(out, H))])
        E.guard(out, H, "calculate_hmac")
        E.noleak("calculate_hmac")
        for u in X.undef_reads:
            raise Violation("use of uninitialized memory: %s" % u, S.small_model())

    def scen(E):
        try:
            body()
        except MemError as e:
            raise Violation("%s" % e, S.small_model())
    try:
        R.paths += E.explore(scen, 2000)
        R.scen += 1
    except Violation as v:
        msgs = []
        if v.env is not None:
            kn, n = v.env.get("n_key", 0), v.env.get("n_msg", 0)
            if S.X.pc and kn + n < (1 << 33):
                import hmac as hm
                from digest import Native
                N = Native(cfg, [a], work)
                R.replays += 1
                for key, msg in ((bytes((i * 7 + 3) & 255 for i in range(kn)), bytes((i * 5 + 1) & 255 for i in range(n))), (b"\x36" * kn, b"\x5c" * n)):
                    r, got, rest = N.calculate_hmac(a, key, msg)
                    w = hm.new(key, msg, a).digest()
                    if r != 1 or got != w or set(rest) != {0xa5}:
                        msgs.append("key of %d, message of %d bytes: returned %d, %s instead of %s" % (kn, n, r, got.hex(), w.hex()))
                        break
                if not msgs:
                    msgs += memory_replay(a, cfg, work, kn, n)
        R.violations.append({"key": "%s:%s:hmac:%s" % (cfg, a, v.what.split(":")[0][:60]), "what": "[%s %s] %s: %s; real code: %s"
                             % (cfg, a, R.part, v.what, "; ".join(msgs)[:400]), "confirmed": bool(msgs), "model": v.env})
    except (Undecided, Unsupported, Budget) as e:
        R.undecided.append("%s: %s: %s" % (R.part, type(e).__name__, e))
    R.queries = dict(st.stats)
    R.funcs = set(X.funcs_run)
    return R


def memory_replay(a, cfg, work, kn, n):
    """The same call with exact-size buffers under ASan/UBSan."""
    import script
    if max(kn, n) > 1 << 20:
        return []
    bufs = {"k": ("in", kn), "m": ("in", n), "h": ("out", spec.SIZE[a])}
    tr = [{"op": ("hmac", a, ("k", 0), kn, ("m", 0), n, "h", spec.SIZE[a]), "ret": 1, "out": ("hmac", a, ("k", 0, kn), [("m", 0, n)])}]
    bad, text, out = script.native_check(cfg, work, bufs, tr, {}, {})
    return bad
