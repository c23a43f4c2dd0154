#!/bin/bash
# ./check.sh PID [--thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
p=$1; shift
exec python3 "checks/$p.py" "$@"
