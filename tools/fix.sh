#!/bin/bash
# fix.sh Pxx "subject" "what failed": commits /repo's change as a fix and records it.
set -e
cd /repo; git commit -qam "fix: $2"
h=$(git rev-parse --short HEAD); echo "fixed: property=$1 $h $3" >> /verif/known_findings.txt; git log --oneline | head -1
