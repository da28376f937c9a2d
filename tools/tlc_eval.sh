#!/bin/bash
# tlc_eval.sh DIR MODULE: run TLC on a scratch module (development aid)
cd "$1" && java -Xss64m -cp $(python3 -c "import sys; sys.path.insert(0,'/verif'); import run; print(run.JARS)") tlc2.TLC -noGenerateSpecTE -deadlock -metadir /tmp/mcs2 -config $2.cfg $2.tla | grep -v "^Parsing\|^Semantic"; rm -rf /tmp/mcs2
