#!/bin/sh
# short development run
cd /verif; timeout ${T:-900} python3-vt devrun.py "$@" 2>&1 | cut -c1-${W:-420} | grep -v "^proved" | head -${N:-30}
