#!/bin/bash
# Builds what the checks need from the committed files (offline).
set -eu
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -c 'import google.protobuf, sys; print("python", sys.version.split()[0])'
