#!/bin/bash
# Makes sure that what the checks need is there: Java with TLC, the Python that
# runs ade, and specifications that parse.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
/opt/venv/bin/python -c 'import ade, twisted, numpy'
JARS=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec
java -cp $JARS tla2sany.SANY *.tla > ../evidence/sany.log 2>&1 || { tail -20 ../evidence/sany.log; exit 1; }
! grep -q 'Fatal errors\|\*\*\* Errors' ../evidence/sany.log
