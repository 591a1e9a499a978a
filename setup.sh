#!/bin/bash
# Everything runs from source: check that the tools are there and the modules parse.
set -e
cd "$(dirname "$0")"
mkdir -p evidence .work
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
/opt/venv/bin/python -c "import tornado, six"
for f in spec/*_Trace.tla; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$(basename $f)" >/dev/null) || { echo "cannot parse $f"; exit 1; }
done
echo ready
