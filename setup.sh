#!/bin/bash
# builds the Java evaluation of the number operators and tests the operator libraries; offline
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python harness/selftest.py
