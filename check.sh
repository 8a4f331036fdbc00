#!/bin/bash
# check.sh ID [quick|thorough] | check.sh ID replay FILE [san|opt]
exec python3 "$(dirname "$(readlink -f "$0")")/check.py" "$@"
