"""Harnesses (C with nd() inputs) on the symbolic IR executor: same harness format and same native replay as cbmc.py."""
import os, re, time, json
import z3
import build, cbmc
from check import Result
from terms import Store, Term, Budget
from irx import Module, Exec, P, Obj, Unsupported, MemError, PathLimit, u64

IR_SAN = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return,vla-bound,bool", "-fsanitize-trap=all"]


class Bad(Exception):
    pass


def cstr(X, p):
    out = []
    k = 0
    while True:
        b = X.ld(P(p.o, p.off + k), 1, 8)
        if type(b) is not int or b == 0:
            return bytes(out).decode("utf-8", "replace")
        out.append(b)
        k += 1


def externs(R):
    def nd(X, a):
        L = X.user.setdefault("nd", [])
        v = X.st.var("nd%d" % len(L), 64)
        L.append(v)
        return v

    def truth(X, c):
        return c & 1 if type(c) is int else X.icmp("ne", c.w, c, 0)

    def assume(X, a):
        c = truth(X, a[0])
        if type(c) is int:
            if not c:
                raise PathLimit("assumption")
            return
        # along a prefix this was feasible before
        if X.pos >= len(X.prefix) and X.feasible([c]) == "unsat":
            raise PathLimit("assumption")
        X.pc.append(c)

    def check(X, a):
        c = truth(X, a[0])
        if type(c) is int and c:
            X.user["checks"] = X.user.get("checks", 0) + 1
            return
        if X.pos < len(X.prefix):
            # decided on the path this one branched off from
            if type(c) is int:
                raise PathLimit("failed assertion")
            X.pc.append(c)
            return
        msg = cstr(X, a[1])
        if type(c) is int:
            report(X, msg, [])
            raise PathLimit("failed assertion")
        X.user["checks"] = X.user.get("checks", 0) + 1
        n = X.nott(c)
        f = X.feasible([n])
        if f == "unknown":
            R.undecided.append("%s: no answer for '%s'" % (R.part, msg))
        elif f == "sat":
            report(X, msg, [n])
        if X.feasible([c]) == "unsat":
            raise PathLimit("failed assertion")
        X.pc.append(c)

    def report(X, msg, extra):
        if msg in R.found:
            return
        vals = inputs(X, extra)
        if vals is None:
            R.undecided.append("%s: no model for '%s'" % (R.part, msg))
            return
        R.found[msg] = vals

    def reached(X, a):
        R.reached += 1

    def alloc(X, a):
        n = a[0]
        if type(n) is not int:
            n = X.concretize(n)
        if n > (1 << 24):
            raise PathLimit("allocation larger than modelled")
        return X.malloc(n)
    R.report = report
    return {"verif_nd": nd, "verif_assume": assume, "verif_check": check, "verif_reached": reached, "verif_alloc": alloc}


def inputs(X, extra):
    zs = [z for z in X.st.zfull(list(X.pc) + list(extra))]
    s = z3.SolverFor("QF_BV")
    s.set("timeout", 60000)
    for z in zs:
        if type(z) is int:
            if not z:
                return None
        else:
            s.add(z == 1)
    if str(s.check()) != "sat":
        return None
    m = s.model()
    out = []
    for v in X.user.get("nd", []):
        out.append(m.eval(X.st.zfull([v])[0], model_completion=True).as_long())
    return out


def run(h, work, key=None, deadline=None, max_paths=200000, externals=None, max_steps=4000000):
    """Decide harness h on all its paths."""
    R = Result(h.name)
    R.found, R.reached = {}, 0
    t0 = time.time()
    deadline = deadline or t0 + h.timeout
    d = os.path.join(work, "i_%s_%d" % (re.sub(r"\W", "_", h.name), os.getpid()))
    os.makedirs(d, exist_ok=True)
    try:
        build.gen_headers(d, h.cfg, wide=h.wide, **(h.headers or {}))
        fl = cbmc.flags_of(h, d) + ["-D" + x for x in h.defs] + ["-DVERIF_IR=1", "-I" + os.path.join(build.VERIF, "harness")]
        st = Store(1)
        st.sweep = False
        mod = Module()
        for k, s in enumerate(list(h.sources) + [h.src]):
            mod.load_text(build.to_ir(s, d, h.cfg, os.path.join(d, "%d_%s.ll" % (k, os.path.basename(s))), flags=fl, extra=IR_SAN))
    except build.BuildError as e:
        R.undecided.append("%s: does not build: %s" % (h.name, str(e)[-1500:]))
        del R.found, R.reached
        return R
    E = externs(R)
    report = R.report
    E.update(externals or {})
    X = Exec(mod, st, E, max_steps=max_steps)
    X.deadline = deadline
    work_list = [[]]
    n = und = 0
    checks = 0
    while work_list:
        if time.time() > deadline or n > max_paths:
            R.undecided.append("%s: %d paths explored, %d branches left (time or path limit)" % (h.name, n, len(work_list)))
            break
        X.reset(work_list.pop())
        try:
            X.call(h.entry, [])
            lk = None
        except PathLimit:
            pass
        except MemError as e:
            msg = "memory: %s" % e
            report(X, msg, [])
        except (Unsupported, Budget) as e:
            und += 1
            if und < 6:
                R.undecided.append("%s: path not followed: %s" % (h.name, e))
        except RecursionError:
            und += 1
        checks += X.user.get("checks", 0)
        work_list += X.pending
        n += 1
    R.paths = n
    R.funcs = set(f for f in X.funcs_run if f in mod.funcs and in_sources(f, h.sources))
    R.queries = {"queries": st.stats.get("queries", 0), "solver_s": st.stats.get("solver_s", 0.0)}
    R.scen = checks
    if not R.reached and not R.found:
        R.undecided.append("%s: the end of the harness is not reached: nothing is decided" % h.name)
        R.scen = 0
    found, reached = R.found, R.reached
    del R.found, R.reached, R.report
    R.samples.append({"harness": h.name, "paths": n, "assertions": checks, "completed": reached})
    if found:
        try:
            exe = cbmc.native_build(h, work)
        except build.BuildError as e:
            R.undecided.append("%s: counterexample for '%s' but the replay does not build: %s" % (h.name, list(found)[0], str(e)[-1500:]))
            return R
        for msg, vals in list(found.items())[:12]:
            st_, out = cbmc.native_replay(exe, vals)
            R.replays += 1
            k = key(msg, out) if key else None
            k = k or re.sub(r"\s+", " ", "%s:%s" % (h.name.split("[")[0].strip(), msg))[:140]
            R.violations.append({"key": k, "what": "%s: %s; real code: %s" % (h.name, msg, out), "confirmed": st_ in ("fail", "hang"),
                                 "inputs": vals, "property": msg, "replay_status": st_, "replay_message": out})
        if any(v["confirmed"] for v in R.violations):
            R.violations = [v for v in R.violations if v["confirmed"]]
    return R


_src = {}


def in_sources(f, sources):
    for s in sources:
        if s not in _src:
            _src[s] = open(s, errors="replace").read()
        if re.search(r"\b%s\b" % re.escape(f), _src[s]):
            return True
    return False
