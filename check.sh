#!/bin/sh
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")" && exec python3 sa/check.py "$1" --tier "${2:-quick}"
