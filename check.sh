#!/bin/sh
# check.sh PROPERTY [--tier quick|thorough]
cd "$(dirname "$0")" && PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec env PYTHONHASHSEED=0 python3-vt -m smallvc.check "$@"
