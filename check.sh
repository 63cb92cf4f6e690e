#!/bin/bash
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python check.py "$@"
