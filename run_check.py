#!/opt/veriftools/pyvenv/bin/python
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
MODS = {}
for m, ids in (("digests", "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C15"), ("tools", "C14 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25"), ("binding", "C26 C27 C28")):
    for i in ids.split():
        MODS[i] = m
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
mod = __import__(MODS[pid])
import build
try:
    C = mod.run(pid, tier)
except build.BuildError as e:
    sys.stderr.write("the code does not build in a checked configuration:\n%s\n" % e)
    sys.exit(2)
sys.exit(C.finish())
