#!/bin/bash
# check.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE] ...
cd "$(dirname "$0")" || exit 2
. /opt/vp/lib/env.sh
unset PYTHONHASHSEED
exec /opt/venv/bin/python -m sim.runner "$@"
