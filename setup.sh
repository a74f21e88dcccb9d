#!/bin/bash
# Nothing is installed: every check builds what it needs. This only makes sure the tools are there
# and that the specifications parse.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence
for m in spec/*.tla; do (cd spec && tla-sany "$(basename "$m")" >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }; done
rm -f /tmp/sany.$$
g++ --version >/dev/null; gcc --version >/dev/null; objcopy --version >/dev/null
echo ready
