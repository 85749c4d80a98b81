#!/bin/bash
# Nothing is kept: each check compiles the seam into its own scratch directory.
set -e
cd "$(dirname "$(realpath "$0")")"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
gcc -O2 -U_FORTIFY_SOURCE -w -shared -fPIC -o "$d/libsimio.so" sim/simio.c -ldl
. /opt/vp/env.sh
python -c "import numpy, pandas, scipy, h5py, sqlite3, requests, cloudpickle"
python - <<'P'
import ast, glob
for f in glob.glob('sim/*.py') + glob.glob('props/*.py'):
    ast.parse(open(f).read())
print('setup ok')
P
