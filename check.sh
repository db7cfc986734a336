#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# exit 0: holds; exit 1 + VIOLATION line: violated; exit 2: no verdict (the tree does not build, or the analysis failed)
V=$(cd "$(dirname "$0")" && pwd)
exec python3 "$V/sa/runner.py" "$1" "${2:-${VERIF_TIER:-quick}}"
