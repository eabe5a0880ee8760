#!/bin/bash
# Nothing is built ahead of time: specifications are interpreted by TLC and
# flavio is imported from /repo's working tree.  Parse everything once.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c 'import numpy, scipy, yaml' || exit 1
java -version >/dev/null 2>&1 || exit 1
d=$(mktemp -d); cp spec/*.tla "$d"; cd "$d" || exit 1
rc=0
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$f" > out.txt 2>&1 || { cat out.txt; rc=1; }
done
rm -rf "$d"
exit $rc
