"""Hash-consed bit-vector terms with on-line SMT sweeping.

A value is either a Python int (concrete, unsigned) or a Term.  Every term carries its value under K
random input assignments.  When a new term takes the same values as an older one of the same
width, the SMT solver is asked whether the two are equal for *every* value of their inputs (first over
a small cone whose leaves are cut points, then over deeper cones).  Only a proof (unsat) merges them;
the random values never decide anything, they only propose what to ask.
"""
import random, time, threading
import z3

K = 6
K2 = 40


class Budget(Exception):
    pass


class Term(object):
    __slots__ = ("op", "w", "args", "sim", "id", "name", "nf", "sim2", "bf")

    def __repr__(self):
        return "t%d:%s/%d" % (self.id, self.op, self.w)


NF = {"add", "sub", "mul", "xor", "shl"}
BF = {"zext", "trunc", "shl", "lshr", "and", "or", "xor", "add"}
COMM = {"add", "mul", "and", "or", "xor", "eq", "ne"}


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def ev(op, w, a, x=None):
    """Concrete semantics; a: ints; w: result width; x: operand widths."""
    M = (1 << w) - 1
    if op == "add":
        return (a[0] + a[1]) & M
    if op == "sub":
        return (a[0] - a[1]) & M
    if op == "mul":
        return (a[0] * a[1]) & M
    if op == "and":
        return a[0] & a[1]
    if op == "or":
        return a[0] | a[1]
    if op == "xor":
        return a[0] ^ a[1]
    if op == "shl":
        return (a[0] << a[1]) & M if a[1] < w else 0
    if op == "lshr":
        return a[0] >> a[1] if a[1] < w else 0
    if op == "ashr":
        return (sgn(a[0], w) >> min(a[1], w - 1)) & M
    if op == "udiv":
        return a[0] // a[1] if a[1] else M
    if op == "urem":
        return a[0] % a[1] if a[1] else a[0]
    if op == "sdiv":
        p, q = sgn(a[0], w), sgn(a[1], w)
        if q == 0:
            return M if p >= 0 else 1
        r = abs(p) // abs(q)
        return (r if (p < 0) == (q < 0) else -r) & M
    if op == "srem":
        p, q = sgn(a[0], w), sgn(a[1], w)
        if q == 0:
            return a[0]
        r = abs(p) % abs(q)
        return (r if p >= 0 else -r) & M
    if op == "zext":
        return a[0]
    if op == "sext":
        return sgn(a[0], x[0]) & M
    if op == "trunc":
        return a[0] & M
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "eq":
        return int(a[0] == a[1])
    if op == "ne":
        return int(a[0] != a[1])
    if op == "ult":
        return int(a[0] < a[1])
    if op == "ule":
        return int(a[0] <= a[1])
    if op == "slt":
        return int(sgn(a[0], x[0]) < sgn(a[1], x[0]))
    if op == "sle":
        return int(sgn(a[0], x[0]) <= sgn(a[1], x[0]))
    raise NotImplementedError(op)


def zbuild(op, w, a):
    if op == "add":
        return a[0] + a[1]
    if op == "sub":
        return a[0] - a[1]
    if op == "mul":
        return a[0] * a[1]
    if op == "and":
        return a[0] & a[1]
    if op == "or":
        return a[0] | a[1]
    if op == "xor":
        return a[0] ^ a[1]
    if op == "shl":
        return a[0] << a[1]
    if op == "lshr":
        return z3.LShR(a[0], a[1])
    if op == "ashr":
        return a[0] >> a[1]
    if op == "udiv":
        return z3.UDiv(a[0], a[1])
    if op == "urem":
        return z3.URem(a[0], a[1])
    if op == "sdiv":
        return a[0] / a[1]
    if op == "srem":
        return z3.SRem(a[0], a[1])
    if op == "zext":
        return z3.ZeroExt(w - a[0].size(), a[0])
    if op == "sext":
        return z3.SignExt(w - a[0].size(), a[0])
    if op == "trunc":
        return z3.Extract(w - 1, 0, a[0])
    if op == "ite":
        return z3.If(a[0] == 1, a[1], a[2])
    one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
    if op == "eq":
        return z3.If(a[0] == a[1], one, zero)
    if op == "ne":
        return z3.If(a[0] != a[1], one, zero)
    if op == "ult":
        return z3.If(z3.ULT(a[0], a[1]), one, zero)
    if op == "ule":
        return z3.If(z3.ULE(a[0], a[1]), one, zero)
    if op == "slt":
        return z3.If(a[0] < a[1], one, zero)
    if op == "sle":
        return z3.If(a[0] <= a[1], one, zero)
    raise NotImplementedError(op)


class Store(object):
    def __init__(self, seed=1):
        self.rnd = random.Random(seed)
        self.rnd2 = random.Random(seed + 1000003)
        self.tab = {}
        self.bysim = {}
        self.n = 0
        self.vars = {}
        self.cache = {}
        self.stats = {"terms": 0, "queries": 0, "query_cache_hits": 0, "unsat": 0, "sat": 0, "unknown": 0,
                      "solver_s": 0.0, "merged": 0, "normal_form": 0}
        self.sweep = True
        self.forms = {}
        self.zmemo = {}
        self.byid = {}
        self.bforms = {}

    # ---- construction
    def var(self, name, w):
        v = self.vars.get(name)
        if v is None:
            v = Term()
            v.op, v.w, v.args, v.name, v.id = "var", w, (), name, self.n
            self.n += 1
            v.sim = tuple(self.rnd.getrandbits(w) for _ in range(K))
            v.nf = None
            v.sim2 = v.bf = None
            self.vars[name] = v
            self.byid[v.id] = v
        assert v.w == w
        return v

    def mk(self, op, w, *a):
        """a: ints or Terms.  Operand widths are taken from the Term operands."""
        conc = True
        for x in a:
            if type(x) is not int:
                conc = False
                break
        ow = None
        if conc:
            raise ValueError("all concrete: use fold")
        M = (1 << w) - 1
        if len(a) == 2:
            x, y = a
            if op in COMM and (type(x) is int or (type(y) is not int and y.id < x.id)):
                x, y = y, x
                a = (x, y)
            if type(y) is int:
                if op in ("add", "sub", "xor", "or", "shl", "lshr", "ashr") and y == 0:
                    return x
                if op in ("and", "mul") and y == 0:
                    return 0
                if op == "and" and y == M:
                    return x
                if op == "mul" and y == 1:
                    return x
                if op in ("shl", "lshr") and y >= w:
                    return 0
                if op == "xor" and y == M and x.op == "xor" and type(x.args[1]) is int and x.args[1] == M:
                    return x.args[0]
                if op == "ne" and y == 0 and x.w == 1:
                    return x
                if op == "eq" and y == 1 and x.w == 1:
                    return x
            elif x is y:
                if op in ("and", "or"):
                    return x
                if op in ("xor", "sub", "ne", "ult", "slt"):
                    return 0
                if op in ("eq", "ule", "sle"):
                    return 1
        elif op in ("zext", "sext", "trunc"):
            x = a[0]
            if x.w == w:
                return x
            if op == "trunc":
                if x.op in ("zext", "sext"):
                    y = x.args[0]
                    if y.w == w:
                        return y
                    if y.w > w:
                        return self.mk("trunc", w, y)
                    return self.mk(x.op, w, y)
                if x.op == "trunc":
                    return self.mk("trunc", w, x.args[0])
            elif op == "zext" and x.op == "zext":
                return self.mk("zext", w, x.args[0])
        elif op == "ite":
            if type(a[0]) is int:
                return a[1] if a[0] else a[2]
            if a[1] is a[2] or (type(a[1]) is int and type(a[2]) is int and a[1] == a[2]):
                return a[1]
        key = (op, w) + tuple([x if type(x) is int else (x.id,) for x in a])
        t = self.tab.get(key)
        if t is not None:
            return t
        nf = self.normal(op, w, a) if self.sweep and op in NF else None
        bf = self.bytewise(op, w, a) if self.sweep and op in BF else None
        t = Term()
        t.op, t.w, t.args, t.name, t.nf, t.sim2, t.bf = op, w, a, None, nf, None, bf
        t.id = self.n
        self.n += 1
        if nf is not None:
            nk = (nf[0], w, nf[1], frozenset(nf[2].items()))
            old = self.forms.get(nk)
            if old is None and not nf[2]:
                old = (nf[1], nf[1])
            if old is None and len(nf[2]) == 1 and nf[1] == 0:
                (i, c), = nf[2].items()
                x = self.byid.get(i)
                if c == 1 and x is not None:
                    old = (x, x)
            if old is not None and self.prove_form(t, old[0], nf[0]):
                self.stats["normal_form"] += 1
                self.tab[key] = old[1]
                return old[1]
        if bf is not None:
            old = self.bforms.get(bf)
            if old is None:
                f0 = bf[0]
                if all(type(b) is int for b in bf):
                    v = 0
                    for i, b in enumerate(bf):
                        v |= b << (8 * i)
                    old = (v, v)
                elif type(f0) is tuple:
                    x = self.byid.get(f0[0])
                    if x is not None and x.w == w and all(b == (f0[0], i) for i, b in enumerate(bf)):
                        old = (x, x)
            if old is not None and self.prove_form(t, old[0], "B"):
                self.stats["normal_form"] += 1
                self.tab[key] = old[1]
                return old[1]
        self.stats["terms"] += 1
        xw = [x.w if type(x) is not int else None for x in a]
        if xw[0] is None and len(xw) > 1:
            xw[0] = xw[1]
        t.sim = tuple([ev(op, w, [x if type(x) is int else x.sim[k] for x in a], xw) for k in range(K)])
        r = t
        if self.sweep and w > 1:
            s = t.sim
            if all(v == s[0] for v in s) and self.prove_eq(t, s[0]):
                self.stats["merged"] += 1
                r = s[0]
            else:
                sk = (w, s)
                cands = self.bysim.get(sk)
                if cands is None:
                    self.bysim[sk] = [t]
                else:
                    for c in cands[:3]:
                        if self.prove_eq(t, c):
                            self.stats["merged"] += 1
                            r = c
                            break
                    else:
                        cands.append(t)
        self.tab[key] = r
        if nf is not None:
            self.forms[nk] = (t, r)
        if bf is not None:
            self.bforms[bf] = (t, r)
        self.byid[t.id] = t
        return r

    def bytewise(self, op, w, a):
        """The bytes a term consists of, when it only moves, joins or clears whole bytes (least significant first;
        each a constant or (term id, byte)).  Two terms made of the same bytes are equal."""
        if w & 7:
            return None

        def bs(v, wv):
            if type(v) is int:
                return tuple([(v >> (8 * i)) & 255 for i in range(wv // 8)])
            if v.bf is not None:
                return v.bf
            if v.w & 7:
                return None
            return tuple([(v.id, i) for i in range(v.w // 8)])
        x = a[0]
        if op == "zext" or op == "trunc":
            b = bs(x, x.w)
            if b is None:
                return None
            n = w // 8
            return (b + (0,) * n)[:n]
        y = a[1]
        n = w // 8
        if op == "shl" or op == "lshr":
            if type(y) is not int or y & 7 or y >= w:
                return None
            b = bs(x, w)
            k = y // 8
            return (0,) * k + b[:n - k] if op == "shl" else b[k:] + (0,) * k
        if op == "and":
            if type(y) is not int:
                return None
            b, m = bs(x, w), bs(y, w)
            if all(v in (0, 255) or type(u) is int for u, v in zip(b, m)):
                return tuple([u & v if type(u) is int else (u if v else 0) for u, v in zip(b, m)])
            return None
        p, q = bs(x, w), bs(y, w)
        out = []
        for u, v in zip(p, q):
            if u == 0 or u is None:
                out.append(v)
            elif v == 0:
                out.append(u)
            elif op == "or" and u == v:
                out.append(u)
            elif op != "add" and type(u) is int and type(v) is int:
                out.append(u | v if op == "or" else u ^ v)
            else:
                return None
        return tuple(out)

    def prove_form(self, a, b, kind):
        """Two terms with one normal form: the form chooses the cut points, the solver decides."""
        inner = {}
        stack = [x for x in (a, b) if type(x) is not int]
        roots = {x.id for x in stack}
        while stack:
            x = stack.pop()
            if x.id in inner:
                continue
            if kind == "B":
                go = x.bf is not None
            else:
                go = x.nf is not None and x.nf[0] == kind and (len(x.nf[2]) <= 300 or x.id in roots)
            if go:
                inner[x.id] = x
                stack.extend([y for y in x.args if type(y) is not int])
        return self.decide(self.canon(a, b, inner)) == "unsat"

    def decide(self, key):
        r = self.cache.get(key)
        if r is None:
            za, zb = self.z3_of(key)
            r = str(self.query(za != zb, 1500)[0])
            self.cache[key] = r
        else:
            self.stats["query_cache_hits"] += 1
        return r

    def normal(self, op, w, a):
        """Sums modulo 2^w and exclusive-ors as a constant and a multiset of atoms (an algebraic identity, so
        two terms with one normal form are equal)."""
        kind = "X" if op == "xor" else "S"
        M = (1 << w) - 1
        x, y = a
        if op == "mul" and type(y) is not int:
            return None
        if op == "shl":
            if type(y) is not int or y > 3:
                return None
            y, op = 1 << y, "mul"

        def form(v):
            if type(v) is int:
                return v, {}
            n = v.nf
            if n is not None and n[0] == kind and len(n[2]) <= 300:
                return n[1], n[2]
            return 0, {v.id: 1}
        c, d = form(x)
        if op == "mul":
            return ("S", c * y & M, {i: e for i, e in ((i, e * y & M) for i, e in d.items()) if e})
        c2, d2 = form(y)
        if kind == "X":
            r = dict(d)
            for i in d2:
                if i in r:
                    del r[i]
                else:
                    r[i] = 1
            return ("X", c ^ c2, r)
        sg = -1 if op == "sub" else 1
        r = dict(d)
        for i, e in d2.items():
            v = (r.get(i, 0) + sg * e) & M
            if v:
                r[i] = v
            else:
                r.pop(i, None)
        return ("S", (c + sg * c2) & M, r)

    # ---- cones
    def cone(self, roots, depth, limit=3000):
        """Nodes within depth of the roots (inner) in topological order; the rest are leaves."""
        lvl = {}
        cur = [r for r in roots if type(r) is not int]
        d = 0
        inner = {}
        seen = {r.id: r for r in cur}
        while cur and d < depth and len(inner) < limit:
            nxt = []
            for t in cur:
                if t.op == "var":
                    continue
                inner[t.id] = t
                for x in t.args:
                    if type(x) is not int and x.id not in seen:
                        seen[x.id] = x
                        nxt.append(x)
            cur = nxt
            d += 1
        full = not any(x.op != "var" for x in cur)
        return inner, full

    def canon(self, a, b, inner):
        """Serialise the pair over its cone with leaves renumbered."""
        out = []
        num = {}

        def ser(t):
            stack = [(t, 0)]
            while stack:
                x, i = stack.pop()
                if type(x) is int or x.id in num:
                    continue
                if x.id not in inner:
                    num[x.id] = len(num)
                    out.append(("L", x.w))
                    continue
                if i < len(x.args):
                    stack.append((x, i + 1))
                    stack.append((x.args[i], 0))
                else:
                    num[x.id] = len(num)
                    out.append((x.op, x.w) + tuple(y if type(y) is int else (num[y.id],) for y in x.args))
        ser(a)
        na = num[a.id]
        if type(b) is int:
            return (tuple(out), na, b)
        ser(b)
        return (tuple(out), na, (num[b.id],))

    def z3_of(self, key):
        nodes, na, nb = key
        zs = []
        for i, nd in enumerate(nodes):
            if nd[0] == "L":
                zs.append(z3.BitVec("l%d" % i, nd[1]))
            else:
                op, w, args = nd[0], nd[1], nd[2:]
                wx = None
                for y in args:
                    if type(y) is not int:
                        yw = nodes[y[0]][1]
                        if op != "ite" or y is not args[0]:
                            wx = yw
                if wx is None:
                    wx = w
                za = [z3.BitVecVal(y, 1 if (op == "ite" and j == 0) else wx) if type(y) is int else zs[y[0]]
                      for j, y in enumerate(args)]
                zs.append(zbuild(op, w, za))
        a = zs[na]
        b = z3.BitVecVal(nb, a.size()) if type(nb) is int else zs[nb[0]]
        return a, b

    def query(self, fml, timeout_ms):
        s = z3.SolverFor("QF_BV")
        s.set("timeout", timeout_ms)
        s.add(fml)
        t0 = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t0
        self.stats["queries"] += 1
        self.stats[str(r)] += 1
        return r, s

    def more(self, t0):
        """K2 further random values of a term, computed on demand (a finer filter for what to ask)."""
        if type(t0) is int:
            return None
        stack = [t0]
        while stack:
            t = stack[-1]
            if t.sim2 is not None:
                stack.pop()
                continue
            if t.op == "var":
                t.sim2 = tuple([self.rnd2.getrandbits(t.w) for _ in range(K2)])
                stack.pop()
                continue
            pend = [x for x in t.args if type(x) is not int and x.sim2 is None]
            if pend:
                stack.extend(pend)
                continue
            xw = [x.w if type(x) is not int else None for x in t.args]
            if xw[0] is None and len(xw) > 1:
                xw[0] = xw[1]
            t.sim2 = tuple([ev(t.op, t.w, [x if type(x) is int else x.sim2[k] for x in t.args], xw) for k in range(K2)])
            stack.pop()
        return t0.sim2

    def differ(self, a, b):
        if type(a) is int:
            a, b = b, a
        sa = self.more(a)
        if type(b) is int:
            return any(v != b for v in sa)
        return sa != self.more(b)

    def prove_eq(self, a, b):
        if a is b:
            return True
        if type(a) is int and type(b) is int:
            return a == b
        if self.differ(a, b):
            return False
        for depth in (3, 5, 8, 12):
            inner, full = self.cone([a, b], depth, 400)
            key = self.canon(a, b, inner)
            r = self.decide(key)
            if r == "unsat":
                return True
            if r == "unknown" and depth > 5:
                return False
            if full or len(inner) >= 400:
                return False
        return False

    # ---- full evaluation / models
    def zfull(self, roots):
        """z3 expressions of the roots over the input variables (no cut points)."""
        memo = {} if self.sweep else self.zmemo

        def go(t0):
            stack = [t0]
            while stack:
                t = stack[-1]
                if type(t) is int or t.id in memo:
                    stack.pop()
                    continue
                if t.op == "var":
                    memo[t.id] = z3.BitVec(t.name, t.w)
                    stack.pop()
                    continue
                pend = [x for x in t.args if type(x) is not int and x.id not in memo]
                if pend:
                    stack.extend(pend)
                    continue
                wx = t.w
                for j, x in enumerate(t.args):
                    if type(x) is not int and not (t.op == "ite" and j == 0):
                        wx = x.w
                za = [z3.BitVecVal(x, 1 if (t.op == "ite" and j == 0) else wx) if type(x) is int else memo[x.id]
                      for j, x in enumerate(t.args)]
                memo[t.id] = zbuild(t.op, t.w, za)
                stack.pop()
        out = []
        for r in roots:
            if type(r) is int:
                out.append(r)
            else:
                go(r)
                out.append(memo[r.id])
        return out

    def evaluate(self, roots, env):
        """Evaluate under env: var name -> int (default 0)."""
        memo = {}
        for r in roots:
            stack = [r]
            while stack:
                t = stack[-1]
                if type(t) is int or t.id in memo:
                    stack.pop()
                    continue
                if t.op == "var":
                    memo[t.id] = env.get(t.name, 0)
                    stack.pop()
                    continue
                pend = [x for x in t.args if type(x) is not int and x.id not in memo]
                if pend:
                    stack.extend(pend)
                    continue
                xw = [x.w if type(x) is not int else None for x in t.args]
                if xw[0] is None and len(xw) > 1:
                    xw[0] = xw[1]
                memo[t.id] = ev(t.op, t.w, [x if type(x) is int else memo[x.id] for x in t.args], xw)
                stack.pop()
        return [r if type(r) is int else memo[r.id] for r in roots]

    def sim_env(self, k):
        return {n: v.sim[k] for n, v in self.vars.items()}
