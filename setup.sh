#!/bin/bash
# Checks that the toolchain is there and that the drivers build from the committed files.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
java -version >/dev/null 2>&1
bash harness/build.sh .work/setup
rm -rf "$PWD/.work/setup"
echo setup ok
