#!/bin/bash
# Nothing to build: see that the tools are there and the specification parses.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp spec/*.tla "$d"
cd "$d"
cp=$(ls /opt/veriftools/tla/*.jar | tr '\n' ':')
for m in MC Chain Config Sched TraceCalls; do
  java -Djava.io.tmpdir="$d" -cp "$cp" tla2sany.SANY $m.tla > sany.log 2>&1 || { cat sany.log; exit 1; }
done
echo "specification parsed"
