#!/bin/bash
# unpack hypothesis next to the checks (they also do this on demand)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "from hv import boot; boot.hypothesis_path(); import hypothesis; print('hypothesis', hypothesis.__version__)"
