#!/bin/bash
# Nothing is compiled ahead of time: checks import /repo's working tree and TLC reads spec/*.tla directly.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
command -v java >/dev/null || exit 1
[ -f /opt/veriftools/tla/tla2tools.jar ] || exit 1
exit 0
