#!/bin/sh
# Nothing is installed: checks the tools are there and the reference digests agree with published implementations.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
for t in cbmc goto-cc goto-instrument /usr/bin/clang /usr/bin/opt /usr/bin/gcc python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
PYTHONDONTWRITEBYTECODE=1 python3-vt - <<'PY'
import sys
sys.path.insert(0, "lib")
import spec, terms
print("reference self-test:", spec.selftest(terms.Store))
PY
