#!/bin/bash
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
bash ./setup.sh >/dev/null 2>&1 || { bash ./setup.sh; exit 2; }
exec ./bin/gosym -check "$1" -tier "${2:-quick}"
