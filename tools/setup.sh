#!/bin/bash
# nothing to build: the specifications are interpreted by TLC and the code under test is imported from /repo/python
set -e
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import numpy; print("numpy", numpy.__version__)'
