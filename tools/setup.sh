#!/bin/bash
# Nothing is compiled: the setup checks that the tools are there and that every module of the
# specification parses.
set -e
cd "$(dirname "$0")/../spec"
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 \
    || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c "import pycid"
echo "setup ok"
