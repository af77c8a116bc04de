#!/bin/sh
# nothing is built ahead of time: every check compiles /repo's current sources itself. Only verify the tools.
set -e
command -v python3-vt gcc opt clang mpirun >/dev/null 2>&1 || true
python3-vt -c 'import z3' 
test -x /usr/lib/llvm-18/bin/clang || command -v clang >/dev/null
echo ok
