#!/bin/sh
# Nothing to build ahead: checks extract and compile from /repo on every run.  Fails when a needed tool is missing.
set -e
cd "$(dirname "$0")"
/usr/bin/clang-18 --version >/dev/null
gcc --version >/dev/null
PYTHONDONTWRITEBYTECODE=1 python3-vt -c 'import z3; print("z3", z3.get_version_string())'
