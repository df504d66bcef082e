#!/bin/bash
# tools/m.sh CHECKS FILE OLD NEW ...: one line per mutant
echo "== ${*:3}" | tr '\n' ' ' | cut -c1-110; echo; cd /verif && python3 tools/mut.py "$@" 2>&1 | grep -v '^$' | cut -c1-250 | head -${M:-5}
