#!/bin/bash
# exit 0: property holds here; non-zero: it does not
PYTHONPATH=$PWD MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
