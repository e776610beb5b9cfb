#!/bin/bash
# usage: check.sh <property> <quick|thorough>
here=$(cd "$(dirname "$0")" && pwd)
exec python3-vt "$here/engine/report.py" "$1" "${2:-quick}"
