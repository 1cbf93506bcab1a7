#!/bin/bash
# ./check.sh C08  (VERIF_TIER=thorough for the deep run)
cd "$(dirname "$0")" && exec python3 tools/check.py "$@"
