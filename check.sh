#!/bin/bash
# check.sh <property id> [quick|thorough]
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/opt/vp/no-pycache LANG=C.UTF-8 TZ=UTC
exec /opt/venv/bin/python "$(dirname "$0")/run.py" "$@"
