#!/bin/bash
# check.sh Cxx [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" && exec /opt/venv/bin/python run.py "$@"
