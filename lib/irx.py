"""Symbolic executor for LLVM IR (clang 18 textual IR of the real source files).

Control flow and sizes are followed concretely where they are concrete; data is symbolic (terms.py).
A branch on a symbolic condition forks: the solver decides which sides are feasible under the current
path condition, and every feasible path is executed (by re-execution under a decision prefix).
Memory is a set of objects with one cell per byte, so every access is bounds, lifetime and
initialisation checked.
"""
import re, time
import z3
from terms import Store, Term, ev, Budget


class Unsupported(Exception):
    pass


class MemError(Exception):
    pass


class PathLimit(Exception):
    pass


class Obj(object):
    __slots__ = ("mem", "size", "kind", "live", "name", "const", "id", "tag", "at", "cells")
    cnt = 0

    def __init__(self, size, kind, name, const=False):
        self.mem = [None] * size
        self.size = size
        self.kind = kind
        self.name = name
        self.live = True
        self.const = const
        self.tag = None
        self.at = ()
        self.cells = None
        Obj.cnt += 1
        self.id = Obj.cnt


class P(object):
    __slots__ = ("o", "off")

    def __init__(self, o, off=0):
        self.o = o
        self.off = off

    def __repr__(self):
        return "<%s+%r>" % (self.o.name, self.off)


class Fn(object):
    def __init__(self, name):
        self.name = name
        self.size = 0
        self.kind = "func"
        self.live = True
        self.mem = []
        self.const = True
        self.id = 0


TOK = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)|\.\.\.|-?\d+(?:\.\d+e[+-]?\d+)?|0x[0-9A-Fa-f]+|[a-zA-Z_][a-zA-Z0-9_.]*|![^\s,)]*|#\d+|.)')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or not m.group(1):
            break
        out.append(m.group(1))
        i = m.end()
    return out


class Module(object):
    """Parsed IR of one or more files."""

    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.alias = {}

    # ---- types: ('i',n) ('p',) ('a',n,t) ('s',[t..],packed) ('n',name) ('v',)
    def ptype(self, t, i):
        x = t[i]
        if x == "ptr":
            return ("p",), i + 1
        if x == "void":
            return ("v",), i + 1
        if re.match(r"^i\d+$", x):
            return ("i", int(x[1:])), i + 1
        if x in ("float", "double", "x86_fp80"):
            return ("f", x), i + 1
        if x == "[":
            n = int(t[i + 1])
            e, i = self.ptype(t, i + 3)
            return ("a", n, e), i + 1
        if x == "{" or (x == "<" and t[i + 1] == "{"):
            packed = x == "<"
            i += 2 if packed else 1
            fs = []
            while t[i] != "}":
                f, i = self.ptype(t, i)
                fs.append(f)
                if t[i] == ",":
                    i += 1
            i += 1
            if packed:
                i += 1
            return ("s", tuple(fs), packed), i
        if x[0] == "%":
            return ("n", x[1:].strip('"')), i + 1
        if x == "metadata" or x == "label":
            return ("m",), i + 1
        raise Unsupported("type %r in %r" % (x, " ".join(t)[:200]))

    def size(self, ty):
        k = ty[0]
        if k == "i":
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(ty[1]) or (ty[1] + 7) // 8
        if k == "p":
            return 8
        if k == "a":
            return ty[1] * self.size(ty[2])
        if k == "n":
            return self.size(self.types[ty[1]])
        if k == "s":
            return self.layout(ty)[1]
        if k == "f":
            return {"float": 4, "double": 8}.get(ty[1], 16)
        raise Unsupported("size of %r" % (ty,))

    def align(self, ty):
        k = ty[0]
        if k == "a":
            return self.align(ty[2])
        if k == "n":
            return self.align(self.types[ty[1]])
        if k == "s":
            return 1 if ty[2] else max([1] + [self.align(f) for f in ty[1]])
        return self.size(ty)

    def layout(self, ty):
        if ty[0] == "n":
            return self.layout(self.types[ty[1]])
        off = 0
        offs = []
        for f in ty[1]:
            if not ty[2]:
                al = self.align(f)
                off = (off + al - 1) // al * al
            offs.append(off)
            off += self.size(f)
        if not ty[2]:
            al = self.align(ty)
            off = (off + al - 1) // al * al
        return offs, off

    def res(self, ty):
        while ty[0] == "n":
            ty = self.types[ty[1]]
        return ty

    def load_text(self, text, prefix=""):
        # symbols local to this module get a suffix of their own
        self.nmod = getattr(self, "nmod", 0) + 1
        loc = set(re.findall(r"(?m)^@([\w.$]+) = (?:private|internal)\b", text))
        loc |= set(re.findall(r"(?m)^define internal .*?@([\w.$]+)\(", text))
        if loc:
            suf = ".m%d" % self.nmod
            text = re.sub(r"@([\w.$]+)", lambda m: "@" + m.group(1) + suf if m.group(1) in loc else m.group(0), text)
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                nm, rest = ln.split(" = type ", 1)
                if rest.strip() == "opaque":
                    self.types[nm[1:].strip('"')] = ("s", (), False)
                else:
                    self.types[nm[1:].strip('"')] = self.ptype(tokenize(rest), 0)[0]
            elif ln.startswith("@"):
                self.pglobal(ln)
            elif ln.startswith("define"):
                body = []
                hdr = ln
                i += 1
                while not lines[i].startswith("}"):
                    body.append(lines[i])
                    i += 1
                self.pfunc(hdr, body)
            i += 1

    def pglobal(self, ln):
        t = tokenize(ln)
        name = t[0][1:].strip('"')
        i = 2
        external = False
        while t[i] not in ("global", "constant"):
            if t[i] in ("external", "extern_weak"):
                external = True
            if t[i] == "alias":
                return
            i += 1
        const = t[i] == "constant"
        ty, i = self.ptype(t, i + 1)
        if external:
            if name not in self.globals:
                self.globals[name] = (ty, None, const)
            return
        init, i = self.pconst(t, i, ty)
        self.globals[name] = (ty, init, const)

    def pconst(self, t, i, ty):
        """Constant -> nested description."""
        x = t[i]
        if x in ("zeroinitializer", "null"):
            return ("zero",), i + 1
        if x in ("undef", "poison"):
            return ("undef",), i + 1
        if x == "true":
            return ("int", 1), i + 1
        if x == "false":
            return ("int", 0), i + 1
        if x.startswith('c"'):
            s = x[2:-1]
            out = bytearray()
            j = 0
            while j < len(s):
                if s[j] == "\\":
                    out.append(int(s[j + 1:j + 3], 16))
                    j += 3
                else:
                    out.append(ord(s[j]))
                    j += 1
            return ("bytes", bytes(out)), i + 1
        if x == "[":
            els = []
            i += 1
            while t[i] != "]":
                ety, i = self.ptype(t, i)
                e, i = self.pconst(t, i, ety)
                els.append((ety, e))
                if t[i] == ",":
                    i += 1
            return ("agg", els), i + 1
        if x == "{" or (x == "<" and t[i + 1] == "{"):
            i += 2 if x == "<" else 1
            els = []
            while t[i] != "}":
                ety, i = self.ptype(t, i)
                e, i = self.pconst(t, i, ety)
                els.append((ety, e))
                if t[i] == ",":
                    i += 1
            i += 1
            if x == "<":
                i += 1
            return ("agg", els), i
        if re.match(r"^-?\d+$", x):
            return ("int", int(x)), i + 1
        if x[0] == "@":
            return ("glob", x[1:].strip('"'), 0), i + 1
        if x == "getelementptr":
            i += 1
            while t[i] != "(":
                i += 1
            i += 1
            ety, i = self.ptype(t, i)
            i += 1
            pty, i = self.ptype(t, i)
            base, i = self.pconst(t, i, pty)
            idx = []
            while t[i] == ",":
                i += 1
                if t[i] == "inrange":
                    i += 1
                ity, i = self.ptype(t, i)
                c, i = self.pconst(t, i, ity)
                idx.append(c[1] if c[0] == "int" else 0)
            i += 1
            return ("glob", base[1], base[2] + self.gepoff(ety, idx)), i
        if x in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "trunc", "zext"):
            i += 2
            ty2, i = self.ptype(t, i)
            c, i = self.pconst(t, i, ty2)
            while t[i] != ")":
                i += 1
            return c, i + 1
        raise Unsupported("constant %r in %s" % (x, " ".join(t)[:200]))

    def gepoff(self, ety, idx):
        off = idx[0] * self.size(ety)
        ty = ety
        for k in idx[1:]:
            ty = self.res(ty)
            if ty[0] == "a":
                off += k * self.size(ty[2])
                ty = ty[2]
            else:
                off += self.layout(ty)[0][k]
                ty = ty[1][k]
        return off

    def pfunc(self, hdr, body):
        m = re.search(r"@(\"[^\"]*\"|[-a-zA-Z$._0-9]+)\(", hdr)
        name = m.group(1).strip('"')
        pt = tokenize(hdr[m.end():])
        params = []
        depth = 1
        cur = []
        for x in pt:
            if x == "(":
                depth += 1
            elif x == ")":
                depth -= 1
                if depth == 0:
                    break
            if x == "," and depth == 1:
                params.append(cur)
                cur = []
            else:
                cur.append(x)
        if cur:
            params.append(cur)
        names = []
        for p in params:
            if p == ["..."]:
                continue
            names.append(p[-1][1:])
        blocks = []
        cur = None
        j = 0
        while j < len(body):
            ln = body[j]
            s = ln.strip()
            j += 1
            if not s or s.startswith(";"):
                continue
            mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if mm:
                cur = [mm.group(1).strip('"'), []]
                blocks.append(cur)
                continue
            if cur is None:
                cur = [None, []]
                blocks.append(cur)
            if s.startswith("switch") and s.endswith("["):
                while not body[j].strip().startswith("]"):
                    s += " " + body[j].strip()
                    j += 1
                s += " ]"
                j += 1
            if "#dbg_" in s:
                continue
            cur[1].append(s)
        self.funcs[name] = (names, blocks, hdr)


CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"}
BIN = {"add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"}
ATTR = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "readnone", "writeonly", "immarg",
        "returned", "inreg", "nest", "swiftself", "noreturn", "nofree", "tail", "musttail", "notail", "fastcc", "ccc",
        "inbounds", "nuw", "nsw", "exact", "disjoint", "nneg", "volatile", "captures", "allocptr", "allocalign", "dead_on_unwind", "writable", "nusw"}


class Exec(object):
    def __init__(self, mod, store, externs=None, max_steps=2000000):
        self.mod = mod
        self.st = store
        self.ext = dict(BASE_EXT)
        if externs:
            self.ext.update(externs)
        self.code = {}
        self.max_steps = max_steps
        self.instrs = 0
        self.funcs_run = set()
        self.deadline = None
        self.solver = None
        self.incremental = True
        self.reset()

    def reset(self, prefix=()):
        self.gobj = {}
        self.heap = []
        self.prefix = list(prefix)
        self.pos = 0
        self.pc = []
        self.pending = []
        self.undef = 0
        self.undef_reads = []
        self.gwrites = []
        self.frees = []
        self.steps = 0
        self.user = {}
        self.stack = []

    # ---- globals
    def glob(self, name):
        o = self.gobj.get(name)
        if o is None:
            if name in self.mod.funcs or name not in self.mod.globals:
                o = Fn(name)
            else:
                ty, init, const = self.mod.globals[name]
                o = Obj(self.mod.size(ty), "global", name, const)
                self.gobj[name] = o
                if init is None:
                    o.mem = [0] * o.size
                else:
                    self.fill(o, 0, ty, init)
            self.gobj[name] = o
        return o

    def fill(self, o, off, ty, c):
        n = self.mod.size(ty)
        if c[0] == "zero":
            o.mem[off:off + n] = [0] * n
        elif c[0] == "undef":
            pass
        elif c[0] == "bytes":
            o.mem[off:off + n] = list(c[1])
        elif c[0] == "int":
            o.mem[off:off + n] = list((c[1] & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))
        elif c[0] == "glob":
            v = P(self.glob(c[1]), c[2])
            o.mem[off:off + n] = [(v, k, n) for k in range(n)]
        elif c[0] == "agg":
            r = self.mod.res(ty)
            if r[0] == "a":
                es = self.mod.size(r[2])
                for k, (ety, e) in enumerate(c[1]):
                    self.fill(o, off + k * es, ety, e)
            else:
                o.mem[off:off + n] = [0] * n
                offs = self.mod.layout(r)[0]
                for k, (ety, e) in enumerate(c[1]):
                    self.fill(o, off + offs[k], ety, e)
        else:
            raise Unsupported("init %r" % (c,))

    # ---- memory
    def chk(self, p, n, what):
        if type(p) is not P:
            raise MemError("%s of %d bytes through %r%s" % (what, n, "a NULL pointer" if (type(p) is int and p == 0) else p, self.where()))
        o = p.o
        if not o.live:
            raise MemError("%s of released object %s%s" % (what, o.name, self.where()))
        off = p.off
        if o.kind == "stream":
            return self.chk_stream(p, n, what)
        if type(off) is not int:
            off = sg64(self.concretize(off))
        if type(n) is not int:
            n = self.concretize(n)
        if off < 0 or off + n > o.size:
            raise MemError("%s of %d bytes at offset %d of %s (size %d)%s" % (what, n, off, o.name, o.size, self.where()))
        return o, off

    # ---- objects of symbolic size (the caller's data): a byte is a function of its offset
    def must(self, c, what):
        """c holds for every value under the path condition, or a violation whose model falsifies it."""
        if type(c) is int:
            if c:
                return
        else:
            n = self.nott(c)
            r = self.feasible([n])
            if r == "unsat":
                return
            if r != "sat":
                raise Budget("no answer for: %s" % what)
            self.pc.append(n)
        raise MemError(what)

    def chk_stream(self, p, n, what):
        o, off = p.o, p.off
        if what != "read":
            raise MemError("write to read-only input %s%s" % (o.name, self.where()))
        if type(off) is int and type(n) is int and type(o.size) is int:
            ok = 0 <= off and off + n <= o.size
            self.must(int(ok), "read of %d bytes at offset %d of %s (size %d)%s" % (n, off, o.name, o.size, self.where()))
            return o, off
        off = off & ((1 << 64) - 1) if type(off) is int else off
        M = "read outside %s (%r bytes)%s" % (o.name, n, self.where())
        self.must(self.icmp("ule", 64, n, o.size), M)
        self.must(self.icmp("ule", 64, off, self.bop("sub", 64, o.size, n)), M)
        return o, off

    def stream_cell(self, o, off):
        if o.cells is None:
            o.cells = {}
        k = off if type(off) is int else ("t", off.id)
        v = o.cells.get(k)
        if v is None:
            v = o.cells[k] = self.st.var("%s_at_%s" % (o.name, k if type(k) is int else "t%d" % off.id), 8)
            self.user.setdefault("stream_cells", {})[v.id] = (o, off)
        return v

    def stream_bytes(self, o, off, n):
        return [self.stream_cell(o, self.bop("add", 64, off, k) if k else off) for k in range(n)]

    def where(self):
        return " in %s" % (self.stack[-1] if self.stack else "?")

    def ld(self, p, n, bits):
        o, off = self.chk(p, n, "read")
        if o.kind == "stream":
            cells = self.stream_bytes(o, off, n)
            if n == 1:
                return cells[0]
        elif n == 1:
            c = o.mem[off]
            if type(c) is int:
                return c
            if type(c) is Term:
                return c
            cells = (c,)
        else:
            cells = o.mem[off:off + n]
            c = cells[0]
            if type(c) is tuple and c[1] == 0 and c[2] == n:
                v = c[0]
                ok = True
                for k in range(1, n):
                    d = cells[k]
                    if type(d) is not tuple or d[0] is not v or d[1] != k:
                        ok = False
                        break
                if ok:
                    return v
        allint = True
        for d in cells:
            if type(d) is not int:
                allint = False
                break
        if allint:
            return int.from_bytes(bytes(cells), "little")
        acc = 0
        w = 8 * n
        for k, d in enumerate(cells):
            b = self.cell(d, o, off + k)
            if type(b) is int:
                v = b << (8 * k)
            else:
                v = b if n == 1 else self.st.mk("zext", w, b)
                if k and type(v) is not int:
                    v = self.st.mk("shl", w, v, 8 * k)
            acc = self.bop("or", w, acc, v) if k else v
        return acc

    def cell(self, d, o=None, off=0):
        if type(d) is int or type(d) is Term:
            return d
        if d is None:
            self.undef += 1
            self.undef_reads.append("%s+%d%s" % (o.name if o else "?", off, self.where()))
            return self.st.var("undef%d" % self.undef, 8)
        v, k, n = d
        if type(v) is P:
            raise Unsupported("partial read of a pointer")
        if type(v) is int:
            return (v >> (8 * k)) & 255
        x = v
        if k:
            x = self.st.mk("lshr", v.w, v, 8 * k)
        if type(x) is int:
            return x & 255
        return self.st.mk("trunc", 8, x)

    def store(self, p, v, n):
        o, off = self.chk(p, n, "write")
        if o.kind == "global":
            if o.const:
                raise MemError("write to constant %s%s" % (o.name, self.where()))
            self.gwrites.append((o.name, off, n, self.stack[-1] if self.stack else "?"))
        elif o.kind == "input":
            raise MemError("write to read-only input %s%s" % (o.name, self.where()))
        if type(v) is int:
            if n == 1:
                o.mem[off] = v & 255
            else:
                o.mem[off:off + n] = v.to_bytes(n, "little")
        elif n == 1:
            if v.w != 8:
                v = self.st.mk("zext", 8, v)
            o.mem[off] = v
        else:
            o.mem[off:off + n] = [(v, k, n) for k in range(n)]

    def memcpy(self, d, s, n):
        if type(n) is not int:
            n = self.concretize(n)
        if n == 0:
            return
        so, soff = self.chk(s, n, "read")
        do, doff = self.chk(d, n, "write")
        if do.kind == "global":
            if do.const:
                raise MemError("write to constant %s" % do.name)
            self.gwrites.append((do.name, doff, n, self.stack[-1] if self.stack else "?"))
        if do.kind == "input":
            raise MemError("write to read-only input %s%s" % (do.name, self.where()))
        do.mem[doff:doff + n] = self.stream_bytes(so, soff, n) if so.kind == "stream" else so.mem[soff:soff + n]

    def memset(self, d, v, n):
        if type(n) is not int:
            n = self.concretize(n)
        if n == 0:
            return
        do, doff = self.chk(d, n, "write")
        if do.kind == "global":
            self.gwrites.append((do.name, doff, n, self.stack[-1] if self.stack else "?"))
        if do.kind == "input":
            raise MemError("write to read-only input %s%s" % (do.name, self.where()))
        if type(v) is int:
            v &= 255
        elif v.w > 8:
            v = self.st.mk("trunc", 8, v)
        do.mem[doff:doff + n] = [v] * n

    def bytes_at(self, p, n):
        o, off = self.chk(p, n, "read")
        if o.kind == "stream":
            return self.stream_bytes(o, off, n)
        return [self.cell(o.mem[off + k], o, off + k) for k in range(n)]

    def malloc(self, n, name="heap"):
        if type(n) is not int:
            raise Unsupported("malloc of symbolic size")
        o = Obj(n, "heap", "%s#%d(%d bytes)" % (name, len(self.heap), n))
        o.at = tuple(self.stack)
        self.heap.append(o)
        return P(o, 0)

    def free(self, p):
        if type(p) is int and p == 0:
            return
        if type(p) is not P or p.o.kind != "heap" or p.off != 0:
            raise MemError("free of %r%s" % (p, self.where()))
        if not p.o.live:
            raise MemError("double free of %s%s" % (p.o.name, self.where()))
        hook = self.user.get("on_free")
        if hook:
            hook(p.o)
        p.o.live = False

    def leaks(self):
        return [o.name for o in self.heap if o.live and o.tag is None]

    # ---- ops on values
    def bop(self, op, w, a, b):
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            if op in ("shl", "lshr", "ashr") and b >= w:
                raise MemError("shift by %d of a %d bit value%s" % (b, w, self.where()))
            if op in ("udiv", "sdiv", "urem", "srem") and b == 0:
                raise MemError("division by zero%s" % self.where())
            return ev(op, w, (a, b), (w, w))
        if ta is P or tb is P:
            if op == "add" and ta is P:
                return self.padd(a, b)
            if op == "add":
                return self.padd(b, a)
            if op == "sub" and ta is P and tb is P and a.o is b.o:
                if type(a.off) is int and type(b.off) is int:
                    return (a.off - b.off) & ((1 << w) - 1)
                return self.bop("sub", 64, u64(a.off), u64(b.off))
            if op == "sub" and tb is int:
                return self.padd(a, -b & ((1 << 64) - 1))
            raise Unsupported("pointer arithmetic %s" % op)
        return self.st.mk(op, w, a, b)

    def icmp(self, pred, w, a, b):
        ta, tb = type(a), type(b)
        if ta is P or tb is P:
            if ta is P and tb is P:
                if a.o is b.o and (type(a.off) is not int or type(b.off) is not int):
                    return self.icmp(pred, 64, u64(a.off), u64(b.off))
                if pred == "eq":
                    return int(a.o is b.o and a.off == b.off)
                if pred == "ne":
                    return int(not (a.o is b.o and a.off == b.off))
                if a.o is b.o:
                    x, y = a.off, b.off
                    return int({"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred])
                raise MemError("relational comparison of unrelated pointers%s" % self.where())
            other = b if ta is P else a
            if type(other) is int and other == 0:
                if pred == "eq":
                    return 0
                if pred == "ne":
                    return 1
                if pred in ("ugt", "uge"):
                    return 1 if ta is P else 0
                if pred in ("ult", "ule"):
                    return 0 if ta is P else 1
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
            raise Unsupported("pointer comparison %s" % pred)
        if pred in ("ugt", "uge", "sgt", "sge"):
            a, b = b, a
            pred = {"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}[pred]
        if type(a) is int and type(b) is int:
            return ev(pred, 1, (a, b), (w, w))
        # trivially decided by range
        if pred in ("ult", "ule"):
            if type(b) is int and pred == "ult" and b == 0:
                return 0
        return self.st.mk(pred, 1, a, b)

    def cast(self, op, w0, w1, a):
        if type(a) is P:
            if op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
                return a
            raise Unsupported("cast of pointer")
        if op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            return a
        if type(a) is int:
            return ev(op, w1, (a,), (w0,))
        return self.st.mk(op, w1, a)

    def gep(self, p, idx, scale, w):
        if type(idx) is not int:
            if type(p) is not P:
                raise Unsupported("gep")
            if p.o.kind == "stream":
                if w < 64:
                    idx = self.st.mk("sext", 64, idx)
                return self.padd(p, self.bop("mul", 64, idx, scale) if scale != 1 else idx)
            idx = self.concretize(idx)
        if w < 64 or idx >> 63:
            idx = idx - (1 << w) if idx >> (w - 1) else idx
        return self.gepc(p, idx * scale)

    def gepc(self, p, off):
        if type(p) is P:
            if type(p.off) is not int:
                return self.padd(p, off & ((1 << 64) - 1))
            return P(p.o, p.off + off)
        if type(p) is int and p == 0 and off == 0:
            return 0
        if type(p) is int:
            if p == 0:
                raise MemError("pointer arithmetic on NULL%s" % self.where())
            return (p + off) & ((1 << 64) - 1)
        raise Unsupported("gep on %r" % (p,))

    def padd(self, p, x):
        """Pointer plus a 64-bit value."""
        if type(p.off) is int and type(x) is int:
            return P(p.o, p.off + sg64(x))
        r = self.bop("add", 64, u64(p.off), x)
        return P(p.o, sg64(r) if type(r) is int else r)

    def concretize(self, t, limit=300):
        """The value of t: every feasible one is explored on a path of its own."""
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][1]
            self.pos += 1
            self.pc.append(self.icmp("eq", t.w, t, v))
            return v
        s = self.inc()
        zt = self.st.zfull([t])[0]
        vals = []
        s.push()
        while True:
            r = str(s.check())
            if r == "unknown":
                s.pop()
                raise Budget("no answer on a symbolic size")
            if r == "unsat":
                break
            v = s.model().eval(zt, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                s.pop()
                raise Unsupported("symbolic size or index with more than %d values%s" % (limit, self.where()))
            s.add(zt != v)
        s.pop()
        if not vals:
            raise PathLimit("infeasible path")
        vals.sort()
        for v in vals[:0:-1]:
            self.pending.append(self.prefix[:self.pos] + [("=", v)])
        self.prefix.append(("=", vals[0]))
        self.pos += 1
        self.pc.append(self.icmp("eq", t.w, t, vals[0]))
        return vals[0]

    # ---- symbolic branches
    def inc(self):
        """An incremental solver holding the current path condition."""
        if self.solver is None:
            self.solver = z3.SolverFor("QF_BV")
            self.solver.set("timeout", 20000)
            self.asserted = []
        k = 0
        while k < len(self.asserted) and k < len(self.pc) and self.asserted[k] is self.pc[k]:
            k += 1
        if k < len(self.asserted):
            self.solver.pop(len(self.asserted) - k)
            del self.asserted[k:]
        for c in self.pc[k:]:
            self.solver.push()
            z = self.st.zfull([c])[0]
            self.solver.add(z3.BoolVal(bool(z)) if type(z) is int else z == 1)
            self.asserted.append(c)
        return self.solver

    def feasible(self, extra):
        zs = []
        for z in self.st.zfull(list(extra)):
            if type(z) is int:
                if not z:
                    return "unsat"
            else:
                zs.append(z == 1)
        if self.incremental:
            s = self.inc()
            t0 = time.time()
            r = s.check(*zs)
            self.st.stats["queries"] += 1
            self.st.stats["solver_s"] += time.time() - t0
            if str(r) != "unknown":
                return str(r)
        fml = list(zs)
        for c in self.st.zfull(self.pc):
            if type(c) is int:
                if not c:
                    return "unsat"
            else:
                fml.append(c == 1)
        r, s = self.st.query(z3.And(fml) if fml else z3.BoolVal(True), 20000)
        return str(r)

    def nott(self, c):
        return self.st.mk("xor", 1, c, 1)

    def decide(self, c):
        if type(c) is int:
            return c & 1
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.pc.append(c if d else self.nott(c))
            return d
        ft = self.feasible([c])
        ff = self.feasible([self.nott(c)])
        if ft == "unsat" and ff == "unsat":
            raise PathLimit("infeasible path")
        if ft != "unsat" and ff != "unsat":
            self.pending.append(self.prefix[:self.pos] + [0])
            d = 1
        else:
            d = 1 if ft != "unsat" else 0
        self.prefix.append(d)
        self.pos += 1
        self.pc.append(c if d else self.nott(c))
        return d

    def choose(self, name):
        """A free boolean of the environment (a fault, a backend answer)."""
        k = self.user.setdefault("choices", [])
        v = self.st.var("choice_%s_%d" % (name, len(k)), 1)
        d = self.decide(v)
        k.append((name, d))
        return d

    # ---- calls
    def call(self, name, args):
        f = self.code.get(name)
        if f is None:
            e = self.ext.get(name)
            if e is not None:
                return e(self, args)
            if name in self.mod.funcs:
                f = self.compile(name)
            else:
                raise Unsupported("call of undefined function %s" % name)
        self.funcs_run.add(name)
        self.stack.append(name)
        if len(self.stack) > 200:
            raise Unsupported("recursion too deep")
        try:
            return f(self, args)
        finally:
            self.stack.pop()

    def callp(self, p, args):
        if type(p) is P and isinstance(p.o, Fn):
            return self.call(p.o.name, args)
        raise MemError("call through %r" % (p,))

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step limit")
        if self.deadline and (self.steps & 1023) == 0 and time.time() > self.deadline:
            raise Budget("time limit")

    # ---- compile a function to Python
    def compile(self, name):
        src = FnCompiler(self, name).gen()
        env = {"P": P, "Obj": Obj, "Term": Term, "ev": ev, "MemError": MemError, "Unsupported": Unsupported}
        exec(compile(src, "<ir:%s>" % name, "exec"), env)
        f = env["f"]
        self.code[name] = f
        return f


def u64(v):
    return v & ((1 << 64) - 1) if type(v) is int else v


def sg64(v):
    return v - (1 << 64) if v >> 63 else v


class FnCompiler(object):
    def __init__(self, ex, name):
        self.ex = ex
        self.m = ex.mod
        self.name = name
        self.params, self.blocks, self.hdr = self.m.funcs[name]
        self.bid = {}
        for k, b in enumerate(self.blocks):
            if b[0] is None:
                b[0] = "%entry%"
            self.bid[b[0]] = k
        self.vn = {}
        self.phis = {}

    def v(self, nm):
        x = self.vn.get(nm)
        if x is None:
            x = "r%d" % len(self.vn)
            self.vn[nm] = x
        return x

    def val(self, t, i, ty):
        """Parse a value of type ty at t[i] -> (python expr, next i)."""
        x = t[i]
        if x[0] == "%":
            return self.v(x[1:].strip('"')), i + 1
        if x in ("null", "zeroinitializer", "false"):
            return "0", i + 1
        if x == "true":
            return "1", i + 1
        if x in ("undef", "poison"):
            return "0", i + 1
        if re.match(r"^-?\d+$", x):
            return str(int(x) & ((1 << ty[1]) - 1)), i + 1
        c, j = self.m.pconst(t, i, ty)
        if c[0] == "glob":
            return "P(X.glob(%r),%d)" % (c[1], c[2]), j
        if c[0] == "int":
            return str(c[1]), j
        raise Unsupported("operand %r" % (c,))

    def tyval(self, t, i):
        ty, i = self.m.ptype(t, i)
        while t[i] in ATTR or t[i] in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret"):
            if t[i] == "align":
                i += 2
            elif t[i] in ("dereferenceable", "dereferenceable_or_null", "byval", "sret"):
                while t[i] != ")":
                    i += 1
                i += 1
            else:
                i += 1
        e, i = self.val(t, i, ty)
        return ty, e, i

    @staticmethod
    def isint(e):
        return e.isdigit()

    def conc(self, *es):
        c = [("type(%s) is int" % e) for e in es if not e.isdigit()]
        return " and ".join(c) if c else "True"

    def goto(self, frm, to, ind):
        out = []
        ph = self.phis.get(to, [])
        if ph:
            lhs, rhs = [], []
            for dst, ty, inc in ph:
                for e, b in inc:
                    if b == frm:
                        lhs.append(dst)
                        rhs.append(e)
                        break
            out.append(ind + "%s = %s" % (", ".join(lhs), ", ".join(rhs)))
        out.append(ind + "bb = %d" % self.bid[to])
        return out

    def gen(self):
        # phis first
        for bn, ins in self.blocks:
            lst = []
            for s in ins:
                m = re.match(r"^(%\S+) = phi (.*)$", s)
                if not m:
                    break
                t = tokenize(m.group(2))
                ty, i = self.m.ptype(t, 0)
                inc = []
                while i < len(t) and t[i] == "[":
                    e, i = self.val(t, i + 1, ty)
                    assert t[i] == ","
                    lb = t[i + 1][1:].strip('"')
                    inc.append((e, lb))
                    i += 3
                    if i < len(t) and t[i] == ",":
                        i += 1
                lst.append((self.v(m.group(1)[1:].strip('"')), ty, inc))
            self.phis[bn] = lst
        # an unnamed entry block has the label after the last unnamed param
        ent = self.blocks[0][0]
        if ent == "%entry%":
            k = len(self.params)
            for bn in self.phis:
                for j, (d, ty, inc) in enumerate(self.phis[bn]):
                    self.phis[bn][j] = (d, ty, [(e, ent if lb == str(k) else lb) for e, lb in inc])
        bodies = []
        for bn, ins in self.blocks:
            out = []
            for s in ins:
                if re.match(r"^%\S+ = phi ", s):
                    continue
                out += self.ins(s, bn)
            bodies.append(out)
        L = ["def f(X, A):", " st=X.st; mk=st.mk; ld=X.ld; sto=X.store; bop=X.bop; frame=[]",
             " if len(A) < %d: raise Unsupported('call with too few arguments')" % len(self.params)]
        for k, p in enumerate(self.params):
            L.append(" %s = A[%d]" % (self.v(p), k))
        L.append(" bb = 0")
        L.append(" while True:")
        L.append("  X.tick()")

        def tree(lo, hi, ind):
            if hi - lo == 1:
                b = bodies[lo] or ["raise Unsupported('empty block')"]
                for s in b:
                    L.append(ind + s)
                return
            mid = (lo + hi) // 2
            L.append(ind + "if bb < %d:" % mid)
            tree(lo, mid, ind + " ")
            L.append(ind + "else:")
            tree(mid, hi, ind + " ")
        tree(0, len(bodies), "  ")
        return "\n".join(L) + "\n"

    def ins(self, s, bn):
        m = re.match(r"^(%\S+) = (.*)$", s)
        d = None
        if m:
            d = self.v(m.group(1)[1:].strip('"'))
            s = m.group(2)
        t = tokenize(s)
        op = t[0]
        M = self.m
        if op == "load":
            i = 1
            while t[i] in ("volatile", "atomic"):
                i += 1
            ty, i = M.ptype(t, i)
            _, p, i = self.tyval(t, i + 1)
            ty = M.res(ty)
            if ty[0] == "f":
                raise Unsupported("floating point")
            n = M.size(ty)
            if ty[0] == "i" and ty[1] == 1:
                return ["%s = X.cast('trunc',8,1,ld(%s,1,8))" % (d, p)]
            return ["%s = ld(%s,%d,%d)" % (d, p, n, 8 * n)]
        if op == "store":
            i = 1
            while t[i] in ("volatile", "atomic"):
                i += 1
            ty, v, i = self.tyval(t, i)
            _, p, i = self.tyval(t, i + 1)
            return ["sto(%s,%s,%d)" % (p, v, M.size(ty))]
        if op in BIN:
            i = 1
            while t[i] in ATTR:
                i += 1
            ty, a, i = self.tyval(t, i)
            if ty[0] != "i":
                raise Unsupported("vector/float arithmetic")
            b, i = self.val(t, i + 1, ty)
            w = ty[1]
            mask = (1 << w) - 1
            if op in ("add", "sub", "and", "or", "xor", "mul"):
                sy = {"add": "+", "sub": "-", "and": "&", "or": "|", "xor": "^", "mul": "*"}[op]
                return ["%s = (%s %s %s) & %d if %s else bop(%r,%d,%s,%s)" % (d, a, sy, b, mask, self.conc(a, b), op, w, a, b)]
            return ["%s = bop(%r,%d,%s,%s)" % (d, op, w, a, b)]
        if op == "icmp":
            pred = t[1]
            ty, a, i = self.tyval(t, 2)
            b, i = self.val(t, i + 1, ty)
            w = 64 if ty[0] == "p" else ty[1]
            py = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}.get(pred)
            if py:
                return ["%s = (1 if %s %s %s else 0) if %s else X.icmp(%r,%d,%s,%s)" % (d, a, py, b, self.conc(a, b), pred, w, a, b)]
            return ["%s = X.icmp(%r,%d,%s,%s)" % (d, pred, w, a, b)]
        if op in CASTS:
            i = 1
            while t[i] in ATTR:
                i += 1
            ty, a, i = self.tyval(t, i)
            if op == "freeze":
                return ["%s = %s" % (d, a)]
            ty2, i = M.ptype(t, i + 1)
            w0 = 64 if ty[0] == "p" else ty[1]
            w1 = 64 if ty2[0] == "p" else ty2[1]
            return ["%s = X.cast(%r,%d,%d,%s)" % (d, op, w0, w1, a)]
        if op == "getelementptr":
            i = 1
            while t[i] in ATTR:
                i += 1
            ety, i = M.ptype(t, i)
            _, p, i = self.tyval(t, i + 1)
            idx = []
            while i < len(t) and t[i] == "," and not t[i + 1].startswith("!"):
                if t[i + 1] == "inrange":
                    i += 1
                ity, e, i = self.tyval(t, i + 1)
                idx.append((ity, e))
            out = []
            coff = 0
            ty = ety
            cur = p
            for k, (ity, e) in enumerate(idx):
                if k == 0:
                    sc = M.size(ety)
                    isst = False
                else:
                    ty = M.res(ty)
                    if ty[0] == "a":
                        sc = M.size(ty[2])
                        ty = ty[2]
                        isst = False
                    else:
                        coff += M.layout(ty)[0][int(e)]
                        ty = ty[1][int(e)]
                        isst = True
                if isst:
                    continue
                if e.isdigit():
                    x = int(e)
                    if x >> (ity[1] - 1):
                        x -= 1 << ity[1]
                    coff += x * sc
                else:
                    out.append("%s = X.gep(%s,%s,%d,%d)" % (d, cur, e, sc, ity[1]))
                    cur = d
            if coff or not out:
                out.append("%s = X.gepc(%s,%d)" % (d, cur, coff))
            return out
        if op == "extractvalue":
            ty, a, i = self.tyval(t, 1)
            return ["%s = %s[%d]" % (d, a, int(t[i + 1]))]
        if op == "alloca":
            i = 1
            if t[i] == "inalloca":
                i += 1
            ty, i = M.ptype(t, i)
            n = M.size(ty)
            cnt = "1"
            if i < len(t) and t[i] == "," and t[i + 1] != "align":
                _, cnt, i = self.tyval(t, i + 1)
            sz = str(n) if cnt == "1" else "%d*%s" % (n, cnt)
            nm = "%s:%s" % (self.name, [k for k, v in self.vn.items() if v == d][0])
            return ["_o = Obj(%s,'stack',%r); frame.append(_o); %s = P(_o,0)" % (sz, nm, d)]
        if op == "br":
            if t[1] == "label":
                return self.goto(bn, t[2][1:].strip('"'), "") + ["continue"]
            _, c, i = self.tyval(t, 1)
            a, b = t[i + 2][1:].strip('"'), t[i + 5][1:].strip('"')
            return (["if (%s if type(%s) is int else X.decide(%s)):" % (c, c, c)] + self.goto(bn, a, " ") + ["else:"]
                    + self.goto(bn, b, " ") + ["continue"])
        if op == "switch":
            ty, c, i = self.tyval(t, 1)
            dflt = t[i + 2][1:].strip('"')
            i += 4
            out = []
            first = True
            while t[i] != "]":
                ty2, e, i = self.tyval(t, i)
                lb = t[i + 2][1:].strip('"')
                i += 3
                out.append("%sif X.decide(X.icmp('eq',%d,%s,%s)):" % ("" if first else "el", ty[1], c, e))
                out += self.goto(bn, lb, " ")
                first = False
            if first:
                return self.goto(bn, dflt, "") + ["continue"]
            out.append("else:")
            out += self.goto(bn, dflt, " ")
            out.append("continue")
            return out
        if op == "ret":
            out = ["for _o in frame: _o.live = False"]
            hook = "if 'on_ret' in X.user: X.user['on_ret'](%r, frame)" % self.name
            if t[1] == "void":
                return [hook] + out + ["return None"]
            _, e, i = self.tyval(t, 1)
            return ["_r = %s" % e, hook] + out + ["return _r"]
        if op == "unreachable":
            return ["raise MemError('unreachable code reached in %s')" % self.name]
        if op == "select":
            i = 1
            _, c, i = self.tyval(t, i)
            ty, a, i = self.tyval(t, i + 1)
            _, b, i = self.tyval(t, i + 1)
            w = ty[1] if ty[0] == "i" else 64
            return ["if type(%s) is int: %s = %s if %s else %s" % (c, d, a, c, b),
                    "elif type(%s) is P or type(%s) is P: %s = %s if X.decide(%s) else %s" % (a, b, d, a, c, b),
                    "else: %s = mk('ite',%d,%s,%s,%s)" % (d, w, c, a, b)]
        if op in ("call", "tail", "musttail", "notail"):
            i = 0
            while t[i] != "call":
                i += 1
            i += 1
            while t[i] in ATTR or t[i] in ("align", "range", "dereferenceable"):
                if t[i] == "align":
                    i += 2
                elif t[i] in ("range", "dereferenceable"):
                    while t[i] != ")":
                        i += 1
                    i += 1
                else:
                    i += 1
            rty, i = M.ptype(t, i)
            if t[i] == "(":
                dep = 0
                while True:
                    if t[i] == "(":
                        dep += 1
                    if t[i] == ")":
                        dep -= 1
                        if dep == 0:
                            i += 1
                            break
                    i += 1
            callee = t[i]
            i += 1
            assert t[i] == "(", s
            i += 1
            args = []
            while t[i] != ")":
                if t[i] == "metadata":
                    dep = 0
                    while not (dep == 0 and t[i] in (",", ")")):
                        if t[i] in ("(", "{"):
                            dep += 1
                        if t[i] in (")", "}"):
                            dep -= 1
                        i += 1
                    args.append("0")
                else:
                    ty, e, i = self.tyval(t, i)
                    args.append(e)
                if t[i] == ",":
                    i += 1
            al = "[" + ", ".join(args) + "]"
            pre = "" if d is None else "%s = " % d
            if callee[0] == "@":
                nm = callee[1:].strip('"')
                mi = re.match(r"^llvm\.(\w+(?:\.with\.overflow)?)\b", nm)
                if nm.startswith("llvm.va_start"):
                    return ["X.va_start(%s, A[%d:])" % (args[0], len(self.params))]
                if mi:
                    wd = rty[1] if rty[0] == "i" else 0
                    return ["%sINTRINSIC(X,%r,%d,%s)" % (pre, nm, wd, al)] if False else \
                           ["%sX.call_intrinsic(%r,%d,%s)" % (pre, nm, wd, al)]
                return ["%sX.call(%r,%s)" % (pre, nm, al)]
            return ["%sX.callp(%s,%s)" % (pre, self.v(callee[1:].strip('"')), al)]
        raise Unsupported("instruction %s" % s[:100])


def call_intrinsic(self, nm, w, a):
    b = nm.split(".")[1]
    if b in ("lifetime", "dbg", "assume", "experimental", "donothing", "invariant", "va_end"):
        return None
    if b == "memcpy" or b == "memmove":
        return self.memcpy(a[0], a[1], a[2])
    if b == "memset":
        return self.memset(a[0], a[1], a[2])
    if b in ("fshl", "fshr"):
        x, y, n = a
        if type(n) is not int:
            raise Unsupported("funnel shift by a symbolic amount")
        n %= w
        if n == 0:
            return x if b == "fshl" else y
        l = n if b == "fshl" else w - n
        return self.bop("or", w, self.bop("shl", w, x, l), self.bop("lshr", w, y, w - l))
    if b == "bswap":
        x = a[0]
        n = w // 8
        acc = 0
        for k in range(n):
            by = self.bop("and", w, self.bop("lshr", w, x, 8 * k) if k else x, 255)
            sh = 8 * (n - 1 - k)
            acc = self.bop("or", w, acc, self.bop("shl", w, by, sh) if sh else by)
        return acc
    if b in ("umin", "umax", "smin", "smax"):
        pred = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[b]
        c = self.icmp(pred, w, a[0], a[1])
        if type(c) is int:
            return a[0] if c else a[1]
        return self.st.mk("ite", w, c, a[0], a[1])
    if b in ("sadd", "ssub", "smul", "uadd", "usub", "umul") and ".with.overflow" in nm:
        w = int(nm.rsplit(".i", 1)[1])
        op = b[1:]
        r = self.bop(op, w, a[0], a[1])
        ex = "sext" if b[0] == "s" else "zext"
        W = 2 * w
        x, y = [self.cast(ex, w, W, v) for v in a]
        full = self.bop(op, W, x, y)
        return (r, self.icmp("ne", W, full, self.cast(ex, w, W, r)))
    if b == "ubsantrap":
        raise MemError("undefined arithmetic%s" % self.where())
    if b == "va_copy":
        return self.memcpy(a[0], a[1], 24)
    if b == "expect":
        return a[0]
    if b == "objectsize":
        return (1 << w) - 1 if not a[1] else 0
    if b == "is":
        return 0
    if b == "trap":
        raise MemError("trap")
    raise Unsupported("intrinsic %s" % nm)


Exec.call_intrinsic = call_intrinsic


def va_start(self, ap, args):
    """The variable arguments as an x86-64 va_list whose register part is used up: all are in the overflow area."""
    o = Obj(8 * max(1, len(args)), "stack", "varargs")
    for k, a in enumerate(args):
        if type(a) is Term and a.w != 64:
            a = self.st.mk("zext", 64, a)
        self.store(P(o, 8 * k), a, 8)
    self.store(ap, 48, 4)
    self.store(self.gepc(ap, 4), 176, 4)
    self.store(self.gepc(ap, 8), P(o, 0), 8)
    self.store(self.gepc(ap, 16), 0, 8)


Exec.va_start = va_start


# ---- base externals
def _malloc(X, a):
    if X.user.get("malloc_may_fail") and not X.choose("malloc"):
        return 0
    if type(a[0]) is int and a[0] > (1 << 24):
        return 0
    return X.malloc(a[0])


def _calloc(X, a):
    p = _malloc(X, [a[0] * a[1]])
    if type(p) is P:
        X.memset(p, 0, p.o.size)
    return p


def _memcpy(X, a):
    X.memcpy(a[0], a[1], a[2])
    return a[0]


def _memset(X, a):
    X.memset(a[0], a[1], a[2])
    return a[0]


def _memcmp(X, a):
    n = a[2]
    if type(n) is not int:
        raise Unsupported("memcmp with symbolic size")
    x, y = (X.bytes_at(a[0], n), X.bytes_at(a[1], n)) if n else ([], [])
    for p, q in zip(x, y):
        if X.decide(X.icmp("ne", 8, p, q)):
            return 1 if X.decide(X.icmp("ugt", 8, p, q)) else 0xffffffff
    return 0


def _strlen(X, a):
    n = 0
    while True:
        c = X.bytes_at(P(a[0].o, a[0].off + n), 1)[0]
        if X.decide(X.icmp("eq", 8, c, 0)):
            return n
        n += 1


def _error_set(X, a):
    """libcerror_error_set( error, domain, code, format, ... )"""
    X.user["errors_set"] = X.user.get("errors_set", 0) + 1
    if type(a[0]) is P:
        cur = X.ld(a[0], 8, 64)
        if type(cur) is int and cur == 0:
            p = X.malloc(16, "error")
            p.o.tag = "error"
            X.memset(p, 0, 16)
            X.store(a[0], p, 8)
    return None


def _error_free(X, a):
    cur = X.ld(a[0], 8, 64)
    if type(cur) is P:
        X.free(cur)
        X.store(a[0], 0, 8)
    return None


BASE_EXT = {
    "malloc": _malloc, "calloc": _calloc, "free": lambda X, a: X.free(a[0]),
    "memcpy": _memcpy, "memmove": _memcpy, "memset": _memset, "memcmp": _memcmp, "strlen": _strlen,
    "explicit_bzero": lambda X, a: X.memset(a[0], 0, a[1]),
    "libcerror_error_set": _error_set, "libcerror_error_free": _error_free,
}


def all_paths(X, run, check, max_paths=64):
    """Execute run(X) on every feasible path; check(X, result) after each.  Returns number of paths."""
    work = [[]]
    n = 0
    while work:
        pre = work.pop()
        X.reset(pre)
        try:
            r = run(X)
            check(X, r)
        except PathLimit:
            pass
        work += X.pending
        n += 1
        if n > max_paths:
            raise Budget("more than %d paths" % max_paths)
    return n
