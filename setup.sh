#!/bin/bash
# nothing to compile: check that the interpreter and the package under test load
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY="${PY:-/opt/venv/bin/python}"
mkdir -p evidence replays
"$PY" -B -c "import sys; sys.path.insert(0,'/repo'); import numpy, scipy, autograd, legume; print('legume', legume.__file__)"
