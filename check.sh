#!/bin/bash
# check.sh <property> [quick|thorough]
exec /opt/veriftools/pyvenv/bin/python "$(dirname "$0")/engine/main.py" "$@"
