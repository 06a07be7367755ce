#!/bin/bash
# Nothing is compiled ahead of time: every check imports /repo's working tree
# and JIT-compiles it into its own scratch cache.  Verify the tool chain only.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
/opt/venv/bin/python - <<'P'
import numpy, scipy, numba, sympy, networkx, mosek
print("toolchain ok", numpy.__version__, scipy.__version__, numba.__version__, mosek.Env.getversion())
P
