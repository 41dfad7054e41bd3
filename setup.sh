#!/bin/bash
# Nothing to build: checks that the interpreter and the library under test are usable.
cd "$(dirname "$0")" || exit 1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src "$py" -c 'import sys, opyenxes; assert sys.version_info >= (3, 12)'
