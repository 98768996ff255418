#!/bin/bash
# bash check.sh <property id>: run one check (VERIF_TIER=quick|thorough)
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python run.py "$1"
