#!/bin/bash
# Nothing is compiled: the specifications and the harness run from the committed
# files.  Checks that the tools are there.
set -e
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
/opt/venv/bin/python -B -c "import numpy, scipy"
