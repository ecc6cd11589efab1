#!/bin/bash
# nothing to build ahead: every check generates its obligations from /repo's current sources
set -e
cd "$(dirname "$0")"
chmod +x check
python3-vt -c 'import z3' && test -x /usr/lib/llvm-18/bin/opt && mkdir -p evidence out
