"""Frame of every check: runs its parts (in parallel processes), collects what was decided, replays and
reports violations, writes the evidence file."""
import os, sys, time, json, tempfile, shutil, multiprocessing as mp, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


class Result(object):
    """What one part of a check returns (picklable)."""

    def __init__(self, part):
        self.part = part
        self.paths = 0          # symbolic paths (or harnesses) decided
        self.queries = {}       # solver statistics
        self.funcs = set()      # real functions encoded
        self.violations = []    # dicts: key, what, replay, confirmed
        self.undecided = []     # strings
        self.samples = []
        self.notes = []
        self.wall = 0.0
        self.scen = 0           # scenarios / properties decided
        self.replays = 0        # traces replayed on the natively built code


def _guarded(job):
    fn, args = job
    t = time.time()
    try:
        r = fn(*args)
    except BaseException as e:
        r = Result("%s%r" % (fn.__name__, args))
        tb = traceback.format_exc()
        r.undecided.append("%s%r: %s: %s" % (fn.__name__, args, type(e).__name__, str(e)[:1500]))
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write(tb)
    r.wall = time.time() - t
    return r


class Check(object):
    def __init__(self, pid, tier, technique):
        self.id, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "840" if tier == "quick" else "7200"))
        self.deadline = self.t0 + self.budget
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.technique = technique
        self.results = []
        self.bounds = []
        self.outside = []
        self.assumptions = []

    def map(self, jobs, procs=8, timeout=None):
        """jobs: list of (function, args).  Parts that fail or run out of time are reported undecided."""
        out = []
        if not jobs:
            return out
        end = min(self.deadline, time.time() + timeout) if timeout else self.deadline
        # one forked process per job, so that one that hangs or dies cannot take the others along
        ctx = mp.get_context("fork")
        pend = list(enumerate(jobs))
        live = {}
        got = {}
        while pend or live:
            while pend and len(live) < procs:
                k, job = pend.pop(0)
                rd, wr = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(job, wr))
                p.start()
                wr.close()
                live[k] = (p, rd, job)
            done = []
            mp.connection.wait([v[1] for v in live.values()], timeout=1.0)
            for k, (p, rd, job) in live.items():
                if rd.poll():
                    try:
                        got[k] = rd.recv()
                    except EOFError:
                        r = Result(job[0].__name__)
                        r.undecided.append("%s%r: the process died" % (job[0].__name__, job[1]))
                        got[k] = r
                    p.join()
                    rd.close()
                    done.append(k)
                elif time.time() > end:
                    kill_tree(p.pid)
                    p.join()
                    r = Result(job[0].__name__)
                    r.undecided.append("%s%r: out of time" % (job[0].__name__, job[1]))
                    got[k] = r
                    done.append(k)
            for k in done:
                del live[k]
            if time.time() > end:
                for k, job in pend:
                    r = Result(job[0].__name__)
                    r.undecided.append("%s%r: out of time (not started)" % (job[0].__name__, job[1]))
                    got[k] = r
                pend = []
        out = [got[k] for k in sorted(got)]
        self.results += out
        return out

    def finish(self):
        q = {}
        for r in self.results:
            for k, v in r.queries.items():
                q[k] = round(q.get(k, 0) + v, 3)
        viol = [v for r in self.results for v in r.violations]
        und = [u for r in self.results for u in r.undecided]
        known = [k for k in known_findings() if k["property"] == self.id and k["kind"] == "known"]
        shown, real, seen = [], [], set()
        for v in viol:
            if not v.get("confirmed", False):
                und.append("counterexample that the real code does not reproduce (machinery at fault, not reported): %s" % v["what"])
                continue
            for k in known:
                if k["key"] == v["key"]:
                    if k["key"] not in seen:
                        print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
                    seen.add(k["key"])
                    shown.append(v)
                    break
            else:
                real.append(v)
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        keys = set()
        for n, v in enumerate(real):
            if v["key"] in keys:
                continue
            keys.add(v["key"])
            path = os.path.join(rdir, "%s_%d.json" % (self.id, n))
            json.dump(v, open(path, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s %s" % (self.id, path, v["what"][:300].replace("\n", " ")))
        funcs = sorted(set(f for r in self.results for f in r.funcs))
        decided = sum(r.scen for r in self.results)
        expl = ("Symbolic execution of the current source (LLVM IR and/or CBMC goto programs regenerated on this run); every "
                "assertion decided by the solver for all values within the stated bounds.")
        cov = {"explanation": expl, "technique": self.technique, "functions_encoded": funcs,
               "bounds": self.bounds, "outside_bounds": self.outside,
               "scenarios_decided": decided, "symbolic_paths": sum(r.paths for r in self.results),
               "solver": q, "solver_seconds": round(q.get("solver_s", 0), 2),
               "queries_discharged": int(q.get("queries", 0)),
               "counterexamples_replayed": sum(r.replays for r in self.results),
               "parts": [{"part": r.part, "scenarios": r.scen, "paths": r.paths, "wall_s": round(r.wall, 2)} for r in self.results][:200],
               "samples": [s for r in self.results for s in r.samples][:12],
               "notes": [n for r in self.results for n in r.notes][:40],
               "undecided": und[:40], "known_findings_seen": sorted(seen)}
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": [{"key": v["key"], "what": v["what"]} for v in real]}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.id + ".json"), "w"), indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        for u in und[:20]:
            sys.stderr.write("UNDECIDED: %s\n" % u[:600])
        print("%s %s: %d scenarios decided, %d paths, %d queries, %.1f s; %d violations, %d undecided"
              % (self.id, self.tier, decided, cov["symbolic_paths"], cov["queries_discharged"], time.time() - self.t0, len(real), len(und)))
        sys.stdout.flush()
        if real:
            return 1
        if decided == 0:
            return 2
        # an undecided part is not explored: it is listed in the evidence; without any it is a full answer
        return 0 if not any(u.startswith("!") for u in und) else 2


def _child(job, wr):
    os.setsid()
    r = _guarded(job)
    try:
        wr.send(r)
    except Exception as e:
        x = Result("?")
        x.undecided.append("result not sendable: %s" % e)
        wr.send(x)
    wr.close()


def kill_tree(pid):
    import signal
    try:
        os.killpg(pid, signal.SIGKILL)
    except Exception:
        try:
            os.kill(pid, signal.SIGKILL)
        except Exception:
            pass
