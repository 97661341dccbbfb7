#!/bin/bash
# nothing has to be compiled: check that the tools are there
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import numpy, pandas, tables"
java -version 2>/dev/null
ls /opt/veriftools/tla/tla2tools.jar >/dev/null
mkdir -p evidence
