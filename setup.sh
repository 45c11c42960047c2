#!/bin/bash
# Nothing to build: the checks are Python and import csvw from /repo's working tree.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
exec /opt/venv/bin/python -B -c 'import attr, requests_mock, mc.explore'
