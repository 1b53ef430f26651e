#!/bin/bash
# nothing to build: tensap is pure Python; check that it and the harness import
cd "$(dirname "$(readlink -f "$0")")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-$PWD/.mpl}
"$PY" -W ignore - <<'PYEOF'
import sys
sys.path.insert(0, "/repo"); sys.path.insert(0, ".")
import tensap, vt.core
print("tensap from", tensap.__file__)
PYEOF
