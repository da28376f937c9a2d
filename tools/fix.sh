#!/bin/bash
# fix.sh PROP "message" "what failed": commit /repo as a fix and record it
cd /repo && git commit -qam "fix: $2" && cd /verif && echo "fixed: property=$1 $(git -C /repo log -1 --format=%h) $3" >> KNOWN_FINDINGS.txt && tail -1 KNOWN_FINDINGS.txt
