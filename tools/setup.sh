#!/bin/bash
# Nothing to compile ahead: every check regenerates its encoding from /repo at run time.
# Verify that the tools the checks rely on are present.
set -e
/opt/venv/bin/python - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
s = z3.Solver(); x = z3.Real('x'); s.add(x * x < 0); assert s.check() == z3.unsat
print('z3', z3.get_version_string(), 'ok')
PY
