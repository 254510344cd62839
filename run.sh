#!/bin/bash
# run.sh ID: the check of one property (VERIF_TIER=quick|thorough).
cd "$(dirname "$0")" || exit 2
bash setup.sh >/dev/null || exit 2
exec ./bin/gosym check "checks/$1.json"
