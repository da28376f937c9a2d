#!/bin/bash
# mc.sh Module [cfg]: run TLC on a model (development aid)
cd "$(dirname "$0")/../spec"
java -Xss64m -XX:+UseParallelGC -Xmx8g -cp $(python3 -c "import sys; sys.path.insert(0,'/verif'); import run; print(run.JARS)") tlc2.TLC -noGenerateSpecTE -workers 8 -deadlock -metadir /tmp/mcstates -config ${2:-$1.cfg} $1.tla | tail -${3:-14}
rm -rf /tmp/mcstates
