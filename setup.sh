#!/bin/bash
# Sanity of the offline toolchain; every check builds what it needs itself.
cd "$(dirname "$0")" || exit 1
set -e
/opt/venv/bin/python -c "import numpy, scipy, jax"
cd spec
for f in *.tla; do
  tla-sany "$f" >/tmp/verif-sany.$$ 2>&1 || { cat /tmp/verif-sany.$$; exit 1; }
done
echo "specifications parse"
