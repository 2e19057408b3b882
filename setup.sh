#!/bin/bash
# Installs Hypothesis from the offline wheelhouse into .deps (git-ignored).
set -e
cd "$(dirname "$0")"
if [ ! -d .deps/hypothesis ]; then
  python3-vt -m pip install --quiet --no-index --no-deps \
    --find-links /opt/veriftools/wheels \
    --target .deps hypothesis sortedcontainers 2>/dev/null \
  || /opt/venv/bin/python -m pip install --quiet --no-index \
    --find-links /opt/veriftools/wheels --target .deps hypothesis \
  || echo "no wheels: checks use the pre-installed Hypothesis"
fi
exit 0
