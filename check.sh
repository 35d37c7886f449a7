#!/bin/bash
# usage: check.sh PROPERTY [--replay FILE]
# Decides one property of /repo's current working tree; see DESIGN.md.
exec python3 "$(dirname "$(realpath "$0")")/check.py" "$@"
