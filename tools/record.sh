#!/bin/bash
# record.sh PROPERTY SINCE: list the fix commits after SINCE as fixed
git -C /repo log --reverse --format='%h %s' "$2..HEAD" | sed -n "s/^\([0-9a-f]*\) fix: /fixed: property=$1 \1 /p" >> /verif/known_findings.txt
