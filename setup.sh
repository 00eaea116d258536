#!/bin/bash
# nothing to compile: the checks import /repo/src directly; verify that the tools are there
cd "$(dirname "$(realpath "$0")")" || exit 2
mkdir -p evidence/replays
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore -c "from vpbt import core; print('hypothesis', core.hypothesis.__version__)"
