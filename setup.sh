#!/bin/sh
# nothing to build: checks that the tools the verifier needs are there
cd "$(dirname "$0")" || exit 1
PATH=/opt/jy/bin:/opt/veriftools/bin:$PATH
mkdir -p evidence replay
python3-vt -c "import z3, sys; sys.path.insert(0, '.'); import pyvc.verify" || exit 1
cvc5 --version >/dev/null || exit 1
jython2 -c "import xml.parsers.expat" || exit 1
