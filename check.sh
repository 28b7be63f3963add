#!/bin/sh
# check.sh PROPERTY TIER: run one check from anywhere against /repo's working tree
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python mc/run.py "$1" --tier "$2"
