#!/bin/bash
# Nothing to build: the checks are Python and run /repo's sources in place. Shows that the environment works.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence replays
. /opt/vp/env.sh
PYTHONPATH="$PWD:$PYTHONPATH" /opt/venv/bin/python -c 'from mc import standins; print("ready")'
