#!/bin/bash
# check.sh <property> [--thorough|--quick|--replay FILE]
# Runs one property's check against /repo's current working tree (pure Python:
# importing from /repo is the rebuild).
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY="${PY:-/opt/venv/bin/python}"
p="$(echo "$1" | tr 'A-Z' 'a-z')"; shift
exec "$PY" -B "checks/$p.py" "$@"
