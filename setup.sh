#!/bin/sh
# Builds the variants of /repo the checks use (the checks build whatever is missing themselves).
cd "$(dirname "$0")" || exit 1
mkdir -p .cache evidence
exec python3-vt lib/setup_all.py
