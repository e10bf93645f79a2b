#!/bin/bash
# Nothing to build: check that the specification parses and the tools are there.
set -e
cd "$(dirname "$0")"
d=$(mktemp -d /tmp/vf-setup-XXXXXX)
cp spec/*.tla "$d"
cd "$d"
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY *.tla > sany.log 2>&1 || { cat sany.log; exit 1; }
if grep -q "Could not\|\*\*\* Errors" sany.log; then cat sany.log; exit 1; fi
cd /
rm -rf "$d"
/opt/venv/bin/python -c "import sys; print(sys.version)"
echo setup ok
