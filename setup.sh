#!/bin/bash
# Nothing has to be built: parse every specification once so that a broken
# toolchain shows up here and not in a check.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
/opt/venv/bin/python -c 'import numpy, scipy, pandas, yaml, matplotlib' || exit 1
cd "$here/spec" || exit 1
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
exit 0
