#!/bin/bash
# check.sh ID: runs the check of one property (see check.py)
exec python3 "$(dirname "$0")/check.py" "$@"
