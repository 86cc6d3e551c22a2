"""CBMC runs on the real C sources: build with goto-cc, decide with cbmc, replay counterexamples natively."""
import os, re, json, time, subprocess, shutil
import build
from check import Result

NATIVE_FLAGS = ["-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fPIC", "-fno-inline", "-w", "-DREPLAY=1"]
CHECKS = ["--bounds-check", "--pointer-check", "--div-by-zero-check", "--signed-overflow-check", "--undefined-shift-check",
          "--pointer-overflow-check"]


class Harness(object):
    """name; src: harness C file; sources: repo files; cfg: build configuration; defs: -D list;
    remove: functions of the real code replaced by the harness's own definition;
    unwind, unwindset; opts: further cbmc options; headers: keyword arguments of gen_headers; inc: include directories."""

    def __init__(self, name, src, sources, cfg="builtin", defs=(), remove=(), unwind=None, unwindset=(), opts=(), headers=None,
                 inc=(), checks=None, timeout=600, entry="harness", asserts_only=None, stubs=(), native_libs=(), flags=None, mem_gb=10, wide=False, raises=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def limited(cmd, timeout, mem_gb, cwd=None):
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * (1 << 30)),) * 2)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lim, cwd=cwd)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "", "timeout"
    return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")


def flags_of(h, d):
    if h.flags is not None:
        return list(h.flags(d))
    return build.cflags(d, h.cfg) + ["-I" + i for i in h.inc]


def goto_build(h, work):
    d = os.path.join(work, "g_%s_%d" % (re.sub(r"\W", "_", h.name), os.getpid()))
    os.makedirs(d, exist_ok=True)
    build.gen_headers(d, h.cfg, wide=h.wide, **(h.headers or {}))
    fl = flags_of(h, d) + ["-D" + x for x in h.defs]
    objs = []
    for s in h.sources:
        o = os.path.join(d, os.path.basename(s) + ".gb")
        build.must(["goto-cc", "-D__CPROVER_CHECK__=1", "-c"] + fl + [s, "-o", o])
        for f in h.remove:
            o2 = o + ".r"
            rc, out, err = build.run(["goto-instrument", "--remove-function-body", f, o, o2])
            if rc == 0 and os.path.exists(o2):
                os.rename(o2, o)
        objs.append(o)
    hb = os.path.join(d, "harness.gb")
    build.must(["goto-cc", "-D__CPROVER_CHECK__=1", "-c", "-I" + os.path.join(build.VERIF, "harness")] + fl + [h.src, "-o", hb])
    out = os.path.join(d, "all.gb")
    build.must(["goto-cc", "--function", h.entry] + objs + [hb] + ["-o", out])
    out2 = os.path.join(d, "all2.gb")
    build.must(["goto-instrument", "--drop-unused-functions", out, out2])
    return d, out2


def functions(gb):
    rc, o, e = build.run(["goto-instrument", "--list-goto-functions", gb])
    return set(re.findall(r"^(\w[\w:$]*)(?: /\*|$)", o, re.M))


def real_functions(gb, sources):
    """Functions of the real sources that are reachable in the encoded program."""
    fs = set()
    rc, o, e = build.run(["goto-instrument", "--list-goto-functions", gb])
    names = set(l.split()[0] for l in o.split("\n") if l and l[0].isalpha() or l[:1] == "_")
    for s in sources:
        t = open(s, errors="replace").read()
        for m in re.finditer(r"(?m)^\s*(?:[\w\s\*]*?)\b(\w+)\($", t):
            if m.group(1) in names:
                fs.add(m.group(1))
    return fs


def cbmc_run(h, gb, extra=(), timeout=None, raised=None):
    cmd = ["cbmc", gb, "--function", h.entry, "--json-ui", "--trace", "--verbosity", "8", "--unwinding-assertions", "--slice-formula"]
    cmd += CHECKS if h.checks is None else list(h.checks)
    if h.unwind is not None:
        cmd += ["--unwind", str(h.unwind)]
    for u in h.unwindset:
        cmd += ["--unwindset", u]
    for u, n in (raised or {}).items():
        cmd += ["--unwindset", "%s:%d" % (u, n)]
    cmd += list(h.opts) + list(extra)
    t0 = time.time()
    rc, o, e = limited(cmd, timeout or h.timeout, h.mem_gb)
    res = {"rc": rc, "wall": time.time() - t0, "props": [], "status": None, "solver_s": 0.0, "vars": 0, "clauses": 0, "err": e[-2000:]}
    if rc is None:
        return res
    try:
        js = json.loads(o)
    except ValueError:
        res["err"] += o[-2000:]
        return res
    for x in js:
        if "result" in x:
            res["props"] = x["result"]
        if "cProverStatus" in x:
            res["status"] = x["cProverStatus"]
        m = x.get("messageText", "")
        if isinstance(m, str):
            k = re.match(r"Runtime (?:Solver|decision procedure): ([\d.e+-]+)s", m)
            if k:
                res["solver_s"] = max(res["solver_s"], float(k.group(1)))
            k = re.match(r"(\d+) variables, (\d+) clauses", m)
            if k:
                res["vars"], res["clauses"] = int(k.group(1)), int(k.group(2))
            if x.get("messageType") == "ERROR":
                res["err"] += m + "\n"
    return res


def inputs_of(trace):
    """Values given to nd() in order."""
    out = []
    for s in trace:
        if s.get("stepType") == "input" and s.get("inputID") == "nd":
            v = s["values"][0]
            b = v.get("binary")
            if b is not None:
                out.append(int(b, 2))
            else:
                out.append(int(re.sub(r"[uUlL]+$", "", v.get("data", "0"))))
    return out


def native_build(h, work):
    d = os.path.join(work, "n_%s_%d" % (re.sub(r"\W", "_", h.name), os.getpid()))
    os.makedirs(d, exist_ok=True)
    build.gen_headers(d, h.cfg, wide=h.wide, **(h.headers or {}))
    fl = flags_of(h, d) + ["-D" + x for x in h.defs]
    objs = []
    for s in h.sources:
        o = os.path.join(d, os.path.basename(s) + ".o")
        build.must(["/usr/bin/gcc"] + NATIVE_FLAGS + fl + ["-c", s, "-o", o])
        if h.remove:
            build.must(["objcopy"] + ["--weaken-symbol=" + f for f in h.remove] + [o])
        objs.append(o)
    exe = os.path.join(d, "replay")
    build.must(["/usr/bin/gcc"] + NATIVE_FLAGS + ["-I" + os.path.join(build.VERIF, "harness")] + fl + [h.src] + objs + list(h.native_libs) + ["-o", exe])
    return exe


def native_replay(exe, vals, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=77")
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    try:
        o, e = p.communicate(("\n".join(map(str, vals)) + "\n").encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return "hang", "no end within %d s" % timeout
    o, e = o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    if "REPLAY-FAILED" in o:
        return "fail", [l for l in o.split("\n") if "REPLAY-FAILED" in l][0]
    if p.returncode in (77, -6, -11, -8, -7) or "runtime error" in e or "ERROR: AddressSanitizer" in e:
        ls = [l for l in e.split("\n") if "ERROR" in l or "runtime error" in l]
        return "fail", (ls or [e[-300:]])[0] + " (end %d)" % p.returncode
    if "REPLAY-ASSUME" in o:
        return "assume", o.strip()[-300:]
    return "ok", o.strip()[-300:]


def is_unwind(p):
    return "unwind" in p["property"] or "unwinding" in p.get("description", "") or "recursion" in p["property"]


def decide(h, work, key=None, vacuity=True, fallback=None, ignore=None, quiet=False):
    """Run one harness; returns a Result.  fallback: list of Harness variants with smaller bounds, tried when a loop
    cannot be unwound within the bound (a different but possibly equivalent way to write the code)."""
    R = Result(h.name)
    try:
        d, gb = goto_build(h, work)
    except build.BuildError as e:
        R.undecided.append("%s: does not build: %s" % (h.name, str(e)[-1200:]))
        return R
    r = cbmc_run(h, gb)
    # loops that need more than the default bound get a higher one, as far as that ends
    raised, rounds = {}, list(h.raises)
    while rounds and r["status"] is not None:
        bad = [p for p in r["props"] if p["status"] == "FAILURE"]
        loops = [re.sub(r"\.unwind\.", ".", p["property"]) for p in bad if ".unwind." in p["property"]]
        if not loops or [p for p in bad if not is_unwind(p) and not p.get("description", "").startswith("VACUITY")]:
            break
        n = rounds.pop(0)
        for l in loops:
            raised[l] = n
        r0, r = r, cbmc_run(h, gb, raised=raised)
        if r["status"] is None:
            r = r0
            break
    R.queries = {"queries": len(r["props"]), "solver_s": r["solver_s"], "variables": r["vars"], "clauses": r["clauses"]}
    R.funcs = real_functions(gb, h.sources)
    if r["status"] is None:
        R.undecided.append("%s: no verdict (%s) after %.0f s" % (h.name, (r["err"] or "").strip()[-600:], r["wall"]))
        if fallback:
            R2 = decide(fallback[0], work, key, vacuity, fallback[1:], ignore)
            return merge(R, R2)
        return R
    r["nobody"] = sorted(set(p["description"].split()[-1] for p in r["props"] if "no-body" in p["property"]))
    if r["nobody"]:
        R.undecided.append("%s: calls %s, of which there is no model (any result is assumed)" % (h.name, ", ".join(r["nobody"])))
    fails = [p for p in r["props"] if p["status"] == "FAILURE"]
    if ignore:
        fails = [p for p in fails if not ignore(p)]
    fails = [p for p in fails if "no-body" not in p["property"]]
    unknown = [p for p in r["props"] if p["status"] not in ("FAILURE", "SUCCESS")]
    unw = [p for p in fails if is_unwind(p)]
    reach = [p for p in fails if p.get("description", "").startswith("VACUITY")]
    real = [p for p in fails if not is_unwind(p) and p not in reach]
    R.paths = 1
    if vacuity and not reach and not real and not unw:
        R.undecided.append("%s: the end of the harness is not reachable: the run decides nothing" % h.name)
        return R
    if real:
        try:
            exe = native_build(h, work)
        except build.BuildError as e:
            R.undecided.append("%s: counterexample for '%s' but the replay does not build: %s" % (h.name, real[0]["description"], str(e)[-1500:]))
            return R
        done = set()
        for p in real[:12]:
            vals = inputs_of(p.get("trace", []))
            st, msg = native_replay(exe, vals)
            R.replays += 1
            k = key(p, msg) if key else None
            k = k or re.sub(r"\s+", " ", "%s:%s" % (h.name.split("[")[0].strip(), p["description"]))[:140]
            if k in done:
                continue
            done.add(k)
            loc = p.get("sourceLocation", {})
            R.violations.append({"key": k, "what": "%s: %s (%s:%s); real code: %s" % (h.name, p["description"], os.path.basename(loc.get("file", "?")),
                                 loc.get("line", "?"), msg), "confirmed": st in ("fail", "hang"), "inputs": vals, "property": p["property"],
                                 "replay_status": st, "replay_message": msg})
        if any(v["confirmed"] for v in R.violations):
            R.violations = [v for v in R.violations if v["confirmed"]]
        R.scen = len([p for p in r["props"] if p["status"] == "SUCCESS"])
        return R
    if unw:
        R.undecided.append("%s: a loop exceeds the bound: %s" % (h.name, "; ".join(sorted(set("%s %s" % (p["property"], p.get("sourceLocation", {}).get("line", "")) for p in unw)))[:300]))
        if fallback:
            return merge(R, decide(fallback[0], work, key, vacuity, fallback[1:], ignore))
        return R
    if unknown:
        R.undecided.append("%s: %d properties without verdict" % (h.name, len(unknown)))
        return R
    R.scen = len([p for p in r["props"] if p["status"] == "SUCCESS"])
    R.samples.append({"harness": h.name, "properties": R.scen, "variables": r["vars"], "clauses": r["clauses"], "solver_s": r["solver_s"]})
    shutil.rmtree(d, ignore_errors=True)
    return R


def merge(a, b):
    b.notes += ["fell back from: %s" % u for u in a.undecided]
    for k, v in a.queries.items():
        b.queries[k] = b.queries.get(k, 0) + v
    return b
