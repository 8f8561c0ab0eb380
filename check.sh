#!/bin/bash
# ./check.sh ID [quick|thorough]   |   ./check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python -B -m rv.runner "$@"
