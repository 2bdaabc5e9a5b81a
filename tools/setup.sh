#!/bin/bash
# Nothing is built: pvlib is pure Python and imported from /repo. Verify the interpreter can import it.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
mkdir -p "$here/evidence"
cd "$here" && PYTHONPATH="$here" PYTHONDONTWRITEBYTECODE=1 python -c "import pvlib, mon.core; print(pvlib.__file__)"
