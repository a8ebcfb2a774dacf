#!/bin/bash
# r.sh ID [args]: run a check and show only what is not ok
/opt/venv/bin/python /verif/run.py "$@" -v > /tmp/r.$1.out 2>&1
grep -v "^  \[ok\]\|pybullet build" /tmp/r.$1.out | cut -c1-900 | head -${L:-25}
