#!/bin/bash
# usage: check.sh <PROPERTY-ID>...   (run from anywhere)
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3-vt -m sa.run "$@"
