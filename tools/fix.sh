#!/bin/bash
# tools/fix.sh PROPERTY "fix: message" "what failed": commit /repo's change as a fix and record it
git -C /repo commit -qam "$2" && h=$(git -C /repo rev-parse --short HEAD) && echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt && echo $h
