"""Scenarios over the public digest/HMAC API, executed symbolically from the IR of the real sources and
compared with the reference by SMT sweeping; counterexamples are replayed on the natively built code."""
import os, sys, time, json, ctypes, tempfile, hashlib, hmac as hmacmod, shutil
import z3
import build, spec
from terms import Store, Term, K
from irx import Module, Exec, P, Obj, Fn, Unsupported, MemError, PathLimit, Budget

GUARD = 8


class Violation(Exception):
    def __init__(self, what, env=None, detail=None):
        Exception.__init__(self, what)
        self.what, self.env, self.detail = what, env or {}, detail or {}


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ OpenSSL models
def _key(p):
    return (p.o.id, p.off)


def openssl_externs(sp):
    E = {}
    names = {"EVP_md5": "md5", "EVP_sha1": "sha1", "EVP_sha224": "sha224", "EVP_sha256": "sha256", "EVP_sha512": "sha512"}

    def evp_type(name):
        def f(X, a):
            return P(X.glob("%" + name), 0)
        return f
    for n in names:
        E[n] = evp_type(n)

    def tbl(X):
        return X.user.setdefault("ossl", {})

    def ctx_new(X, a):
        if X.user.get("faults") and not X.choose("EVP_MD_CTX_new"):
            return 0
        return X.malloc(48, "EVP_MD_CTX")

    def ctx_free(X, a):
        if type(a[0]) is P:
            tbl(X).pop(_key(a[0]), None)
            X.free(a[0])

    def ctx_init(X, a):
        X.memset(a[0], 0, 48)
        tbl(X)[_key(a[0])] = {"algo": None, "st": "new", "data": [], "embedded": True}

    def ctx_cleanup(X, a):
        X.chk(a[0], 1, "use")
        e = tbl(X).pop(_key(a[0]), None)
        if e and e.get("md_data"):
            X.free(e["md_data"])
        return 1

    def dinit(X, a):
        X.chk(a[0], 1, "use")
        if X.user.get("faults") and not X.choose("EVP_DigestInit"):
            return 0
        if type(a[1]) is not P:
            return 0
        if len(a) > 2 and not (type(a[2]) is int and a[2] == 0):
            raise Unsupported("EVP_DigestInit with parameters")
        old = tbl(X).get(_key(a[0]), {})
        e = {"algo": names[a[1].o.name[1:]], "st": "open", "data": []}
        if old.get("embedded"):
            e["embedded"] = True
            e["md_data"] = old.get("md_data") or X.malloc(8, "md_data")
        tbl(X)[_key(a[0])] = e
        return 1

    def taken(X, p, n):
        """Bytes the back end takes: a list of bytes and, of objects of symbolic size, runs."""
        if type(p) is P and p.o.kind == "stream" and X.user.get("runs"):
            X.chk_stream(p, n, "read")
            return [("run", p.o, p.off, n)]
        if type(n) is not int:
            n = X.concretize(n)
        return X.bytes_at(p, n) if n else []

    def digest_of(X, e):
        if X.user.get("runs"):
            X.user.setdefault("final_data", []).append((e["algo"], list(e["data"])))
            return [X.st.var("md_%d_%d" % (len(X.user["final_data"]), k), 8) for k in range(spec.SIZE[e["algo"]])]
        return sp.digest(e["algo"], e["data"])

    def dupdate(X, a):
        X.chk(a[0], 1, "use")
        e = tbl(X).get(_key(a[0]))
        if e is None or e["st"] != "open":
            return 0
        data = taken(X, a[1], a[2])
        if X.user.get("faults") and not X.choose("EVP_DigestUpdate"):
            return 0
        e["data"] = e["data"] + data
        return 1

    def dfinal(X, a):
        X.chk(a[0], 1, "use")
        e = tbl(X).get(_key(a[0]))
        if e is None or e["st"] != "open":
            return 0
        if X.user.get("faults") and not X.choose("EVP_DigestFinal"):
            return 0
        out = digest_of(X, e)
        e["st"] = "final"
        for k, b in enumerate(out):
            X.store(P(a[1].o, a[1].off + k), b, 1)
        if type(a[2]) is P:
            X.store(a[2], len(out), 4)
        return 1
    E.update({"EVP_MD_CTX_new": ctx_new, "EVP_MD_CTX_free": ctx_free, "EVP_MD_CTX_init": ctx_init,
              "EVP_MD_CTX_cleanup": ctx_cleanup, "EVP_DigestInit_ex2": dinit, "EVP_DigestInit_ex": dinit,
              "EVP_DigestUpdate": dupdate, "EVP_DigestFinal_ex": dfinal, "ERR_remove_thread_state": lambda X, a: None})

    def low(algo, fam):
        def init(X, a):
            X.chk(a[0], 1, "use")
            if X.user.get("faults") and not X.choose("Init"):
                return 0
            tbl(X)[_key(a[0])] = {"algo": algo, "st": "open", "data": []}
            return 1

        def final(X, a):
            e = tbl(X).get(_key(a[1]))
            X.chk(a[1], 1, "use")
            # SHA224_Final and SHA256_Final are one function: the context carries its digest length
            if e is None or e["algo"] not in fam:
                raise MemError("%s final on a context of another kind" % algo)
            if X.user.get("faults") and not X.choose("Final"):
                return 0
            out = digest_of(X, e)
            e["st"] = "final"
            for k, b in enumerate(out):
                X.store(P(a[0].o, a[0].off + k), b, 1)
            return 1
        return init, final

    def lupdate(fam):
        def f(X, a):
            e = tbl(X).get(_key(a[0]))
            X.chk(a[0], 1, "use")
            if e is None or e["algo"] not in fam:
                raise MemError("update on a context of another kind")
            data = taken(X, a[1], a[2])
            if X.user.get("faults") and not X.choose("Update"):
                return 0
            e["data"] = e["data"] + data
            return 1
        return f
    for nm, algo, fam in (("MD5", "md5", ("md5",)), ("SHA1", "sha1", ("sha1",)), ("SHA224", "sha224", ("sha224", "sha256")),
                          ("SHA256", "sha256", ("sha224", "sha256")), ("SHA512", "sha512", ("sha512",))):
        i, f = low(algo, fam)
        E[nm + "_Init"], E[nm + "_Final"], E[nm + "_Update"] = i, f, lupdate(fam)
    return E


class UFSpec(spec.Spec):
    """The digest as an uninterpreted function of its input bytes: for builds whose digest is OpenSSL's, which is
    assumed to compute the standard, the check is about which bytes reach it and where the result goes."""

    def digest(self, algo, msg):
        msg = list(msg)
        if all(type(b) is int for b in msg):
            return list(hashlib.new(algo, bytes(msg)).digest())
        key = (algo, tuple(b if type(b) is int else (b.id,) for b in msg))
        r = self.memo.get(key)
        if r is None:
            n = len(self.memo)
            r = self.memo[key] = [self.st.var("uf_%s_%d_%d" % (algo, n, i), 8) for i in range(spec.SIZE[algo])]
        return list(r)


# ------------------------------------------------------------------ engine
class Engine(object):
    def __init__(self, cfg, algos, work, seed=1, sweep=True, ubsan=False):
        self.cfg, self.algos, self.work = cfg, algos, work
        self.st = Store(seed)
        self.st.sweep = sweep
        self.sp = spec.Spec(self.st) if cfg in ("builtin", "folded") else UFSpec(self.st)
        d = os.path.join(work, cfg)
        build.gen_headers(d, cfg)
        self.dir = d
        self.mod = Module()
        for s in build.lib_sources(algos):
            self.mod.load_text(build.to_ir(s, d, cfg, os.path.join(d, "%d_%s.ll" % (os.getpid(), os.path.basename(s))),
                                          extra=build.UBSAN if ubsan else ()))
        self.X = Exec(self.mod, self.st, openssl_externs(self.sp))
        self.paths = 0
        self.runs = 0

    # objects
    def inp(self, name, n):
        o = Obj(n, "input", name)
        o.mem = [self.st.var("%s%d" % (name, i), 8) for i in range(n)]
        return P(o, 0)

    def out(self, n, name="out"):
        o = Obj(n + GUARD, "out", name)
        o.mem = [self.st.var("%s_old%d" % (name, i), 8) for i in range(n + GUARD)]
        return P(o, 0)

    def ptrcell(self, val=0, name="cell"):
        o = Obj(8, "out", name)
        p = P(o, 0)
        self.X.store(p, val, 8)
        return p

    def explore(self, scenario, max_paths=200):
        """Run scenario(self) on all feasible paths."""
        work = [[]]
        n = 0
        while work:
            pre = work.pop()
            self.X.reset(pre)
            try:
                scenario(self)
            except PathLimit:
                pass
            except MemError as e:
                raise Violation("memory error: %s" % e, self.model(None))
            work += self.X.pending
            n += 1
            if n > max_paths:
                raise Undecided("more than %d paths" % max_paths)
        self.paths += n
        self.runs += 1
        return n

    def model(self, diff):
        """An input satisfying the path condition (and diff, a list of (a,b) byte pairs of which one must differ)."""
        if not self.X.pc and diff:
            for k in range(K):
                env = self.st.sim_env(k)
                vals = self.st.evaluate([x for p in diff for x in p], env)
                if any(vals[2 * i] != vals[2 * i + 1] for i in range(len(diff))):
                    return env
        roots = list(self.X.pc) + [x for p in (diff or []) for x in p]
        zs = self.st.zfull(roots)
        npc = len(self.X.pc)
        fml = [c == 1 for c in zs[:npc] if type(c) is not int]
        if diff and fml:
            # first an input of the path alone: nearly every one shows the difference
            r, s = self.st.query(z3.And(fml), 60000)
            if str(r) == "sat":
                env = self.env_of(s.model())
                vals = self.st.evaluate([x for p in diff for x in p], env)
                if any(vals[2 * i] != vals[2 * i + 1] for i in range(len(diff))):
                    return env
            elif str(r) == "unsat":
                return None
        if diff:
            ds = []
            for i in range(len(diff)):
                a, b = zs[npc + 2 * i], zs[npc + 2 * i + 1]
                if type(a) is int and type(b) is int:
                    if a != b:
                        ds = [z3.BoolVal(True)]
                        break
                else:
                    ds.append(a != b)
            fml.append(z3.Or(ds))
        if not fml:
            return {}
        r, s = self.st.query(z3.And(fml), 120000)
        if str(r) == "unsat":
            return None
        if str(r) == "unknown":
            raise Undecided("solver gave no answer on the difference query")
        return self.env_of(s.model())

    def env_of(self, m):
        env = {}
        for d in m.decls():
            v = m[d]
            if z3.is_bv_value(v):
                env[d.name()] = v.as_long()
        # remaining inputs: the first random assignment
        for n, v in self.st.vars.items():
            env.setdefault(n, v.sim[0])
        return env

    def same(self, got, want, what, **detail):
        diff = []
        for g, w in zip(got, want):
            if g is w or (type(g) is int and type(w) is int and g == w):
                continue
            if type(g) is P or type(w) is P:
                raise Violation("%s: pointer in data" % what, self.model(None), detail)
            if type(g) is not int and type(w) is not int and self.st.prove_eq(g, w):
                continue
            if (type(g) is int) != (type(w) is int):
                t, c = (g, w) if type(w) is int else (w, g)
                if self.st.prove_eq(t, c):
                    continue
            diff.append((g, w))
        if len(got) != len(want):
            raise Violation("%s: length %d, expected %d" % (what, len(got), len(want)), self.model(None), detail)
        if diff:
            env = self.model(diff)
            if env is not None:
                raise Violation(what, env, detail)

    def ret(self, r, want, what, **detail):
        m = (1 << 32) - 1
        if type(r) is not int:
            raise Undecided("symbolic return value")
        if r != want & m:
            raise Violation("%s returned %d instead of %d" % (what, r - (1 << 32) if r >> 31 else r, want), self.model(None), detail)

    def call(self, fn, *a):
        # every API takes a trailing error argument
        self.err = self.ptrcell(0, "error")
        return self.X.call(fn, list(a) + [self.err])

    def err_set(self):
        return type(self.X.ld(self.err, 8, 64)) is P

    def msg(self, p, n):
        return list(p.o.mem[p.off:p.off + n])

    def guard(self, p, n, what):
        o = p.o
        for i in range(n, o.size):
            g, w = o.mem[i], self.st.var("%s_old%d" % (o.name, i), 8)
            if g is not w:
                self.same([g if not isinstance(g, tuple) else self.X.cell(g)], [w], "%s: writes beyond the %d digest bytes" % (what, n))

    def noleak(self, what):
        lk = self.X.leaks()
        if lk:
            raise Violation("%s: memory not released: %s" % (what, ", ".join(lk)), self.model(None))

    def nogwrites(self, what):
        if self.X.gwrites:
            raise Violation("%s: writes shared static data: %r" % (what, self.X.gwrites[0]), self.model(None))


def envbytes(env, name, n):
    return bytes(env.get("%s%d" % (name, i), 0) for i in range(n))


# ------------------------------------------------------------------ native replays
class Native(object):
    def __init__(self, cfg, algos, work, sanitize=False):
        d = os.path.join(work, cfg)
        build.gen_headers(d, cfg)
        so = os.path.join(d, "libreal_%s%s.so" % ("_".join(algos), "_san" if sanitize else ""))
        if not os.path.exists(so):
            if cfg == "evp0":
                cmd = ["/usr/bin/gcc", "-shared", "-fPIC", "-g", "-O1"] + build.cflags(d, cfg) + build.lib_sources(algos) + \
                      [os.path.join(build.STUBS, "libcerror_native.c"), os.path.join(build.STUBS, "openssl10_native.c"), "-o", so, "-lcrypto"]
                build.must(cmd)
            else:
                build.native_lib(d, cfg, so, algos)
        self.lib = ctypes.CDLL(so)
        self.algos = algos

    def calculate(self, a, m, hsize=None):
        h = ctypes.create_string_buffer(b"\xa5" * 200, 200)
        buf = ctypes.create_string_buffer(m, len(m) + 1)
        f = getattr(self.lib, "libhmac_%s_calculate" % a)
        r = f(buf, ctypes.c_size_t(len(m)), h, ctypes.c_size_t(hsize or spec.SIZE[a]), None)
        return r, h.raw[:spec.SIZE[a]], h.raw[spec.SIZE[a]:]

    def calculate_hmac(self, a, key, m):
        h = ctypes.create_string_buffer(b"\xa5" * 200, 200)
        buf = ctypes.create_string_buffer(m, len(m) + 1)
        kb = ctypes.create_string_buffer(key, len(key) + 1)
        f = getattr(self.lib, "libhmac_%s_calculate_hmac" % a)
        r = f(kb, ctypes.c_size_t(len(key)), buf, ctypes.c_size_t(len(m)), h, ctypes.c_size_t(spec.SIZE[a]), None)
        return r, h.raw[:spec.SIZE[a]], h.raw[spec.SIZE[a]:]

    def stream(self, a, parts, api="context_"):
        L = self.lib
        ctx = ctypes.c_void_p(0)
        h = ctypes.create_string_buffer(b"\xa5" * 200, 200)
        rs = [getattr(L, "libhmac_%s_%sinitialize" % (a, api))(ctypes.byref(ctx), None)]
        if rs[0] == 1:
            for p in parts:
                b = ctypes.create_string_buffer(p, len(p) + 1)
                rs.append(getattr(L, "libhmac_%s_%supdate" % (a, api))(ctx, b, ctypes.c_size_t(len(p)), None))
            rs.append(getattr(L, "libhmac_%s_%sfinalize" % (a, api))(ctx, h, ctypes.c_size_t(spec.SIZE[a]), None))
            rs.append(getattr(L, "libhmac_%s_%sfree" % (a, api))(ctypes.byref(ctx), None))
        return rs, h.raw[:spec.SIZE[a]], h.raw[spec.SIZE[a]:]
