#!/bin/bash
# check.sh PROPERTY [tier]
cd "$(dirname "$0")" && exec python3 lib/run.py "$@"
