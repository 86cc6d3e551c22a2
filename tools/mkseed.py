#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds/<id>.py: patch.diff, demo.sh, demo.c, kit/, meta.json; confirms the demonstration both ways.
A seed file defines PROPERTY, FILE, OLD, NEW (or EDITS = [(file, old, new)]), NEEDS, BREAKS, SOURCES, CFG, FLAGS, LIBS, DEMO."""
import os, sys, subprocess, tempfile, shutil, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import build
REPO = "/repo"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(sid):
    ns = {}
    exec(open(os.path.join(V, "tools/seeds", sid + ".py")).read(), ns)
    out = os.path.join(V, "seeded", sid)
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(os.path.join(out, "kit"))
    edits = ns.get("EDITS") or [(ns["FILE"], ns["OLD"], ns["NEW"])]
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        base = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", REPO, base])
        for f, old, new in edits:
            p = os.path.join(base, f)
            s = open(p).read()
            n = ns.get("COUNT", 1)
            if s.count(old) < 1:
                raise SystemExit("%s: text not found in %s" % (sid, f))
            if s.count(old) > 1 and "NTH" not in ns:
                raise SystemExit("%s: text found %d times in %s" % (sid, s.count(old), f))
            if "NTH" in ns and s.count(old) > 1:
                parts = s.split(old)
                k = ns["NTH"]
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                s = s.replace(old, new)
            open(p, "w").write(s)
        d = sh(["git", "-C", base, "diff"]).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        # a change is to lines of the original repository
        kit = os.path.join(out, "kit")
        if not ns.get("PYTHON"):
            shutil.copytree(os.path.join(V, "stubs/include"), os.path.join(kit, "include"))
        build.gen_headers(os.path.join(kit, "gen"), ns.get("CFG", "builtin"), getopt=ns.get("GETOPT", True), extra=ns.get("EXTRA", ""))
        if os.path.isdir(os.path.join(V, "tools/seedkit")):
            for x in os.listdir(os.path.join(V, "tools/seedkit")):
                shutil.copy(os.path.join(V, "tools/seedkit", x), os.path.join(kit, x))
        py = "PY" in ns
        open(os.path.join(out, "demo.py" if py else "demo.c"), "w").write(ns["PY"] if py else ns["DEMO"])
        srcs = " ".join('"$PWD/%s"' % s for s in ns["SOURCES"])
        local = "-DHAVE_LOCAL_LIBHMAC=1 -DLIBHMAC_DLL_EXPORT=1" if ns.get("LOCAL") else ""
        open(os.path.join(out, "demo.sh"), "w").write("""#!/bin/sh
# Builds the real sources of the current tree with the kit's stand-ins for the absent libraries, and runs demo.c on them.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
/usr/bin/gcc -w -g -O1 %s -DHAVE_CONFIG_H=1 -I"$here/kit/gen" -I"$here/kit/include" -I"$here/kit" -I"$PWD/include" -I"$PWD/common" -I"$PWD/libhmac" -I"$PWD/hmactools" -I"$PWD/pyhmac" %s \\
 %s "$here/kit/verror.c" %s -o "$work/%s" %s || exit 4
cd "$work" && %s
""" % (ns.get("FLAGS", ""), local, "-fPIC -shared -I/usr/include/python3.12" if py else '"$here/demo.c"', srcs, "pyhmac.so" if py else "demo", ns.get("LIBS", ""),
       'PYTHONPATH="$work" timeout 100 /usr/bin/python3 "$here/demo.py"' if py else "ASAN_OPTIONS=%s timeout 100 ./demo" % ns.get("ASAN", "detect_leaks=0")))
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        a = sh([os.path.join(out, "demo.sh")], cwd=REPO)
        b = sh([os.path.join(out, "demo.sh")], cwd=base)
        ok = a.returncode == 0 and b.returncode not in (0, 3, 4)
        print(sid, "OK" if ok else "BAD", a.returncode, b.returncode, (a.stdout[-300:] if a.returncode else "") + b.stdout[-200:].replace("\n", " | "))
    finally:
        shutil.rmtree(tmp)


for x in sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(V, "tools/seeds"))):
    make(x)
