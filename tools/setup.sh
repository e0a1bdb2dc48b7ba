#!/bin/bash
# Checks that the toolchain is there and that every specification module parses.
set -e
cd "$(dirname "$0")/../spec"
java -version >/dev/null 2>&1
for m in MC_*.tla Trace*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY -error-codes "$m" >/dev/null || { echo "$m does not parse"; exit 1; }
done
echo ok
