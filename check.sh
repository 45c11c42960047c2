#!/bin/bash
# bash check.sh C01            run the check of one property (VERIF_TIER=quick|thorough)
# bash check.sh --replay FILE  replay a recorded violation
cd "$(dirname "$0")" || exit 3
# Everything the executions could depend on is pinned: hash seed, locale, time zone, home.
export PYTHONHASHSEED=0 TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
export PYTHONPATH="$PWD:${CSVW_REPO:-/repo}/src"
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset PYTHONWARNINGS http_proxy https_proxy HTTP_PROXY HTTPS_PROXY
exec /opt/venv/bin/python -B -m mc.run "$@"
