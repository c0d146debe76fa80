#!/bin/bash
# fixed.sh PROP 'text' : record HEAD of /repo as the fix
echo "fixed: property=$1 $(git -C /repo log -1 --format=%h ${3:-HEAD}) $2" >> /verif/known_findings.txt
