#!/bin/bash
# wrap.sh Module [VerdictPrefix]: write the trace wrapper of a function family
cd "$(dirname "$0")/../spec"
printf -- "---- MODULE Trace$1 ----\nEXTENDS $1, TraceCore\n====\n" > Trace$1.tla
printf "SPECIFICATION Spec\nCONSTANT Verdict <- ${2:-$1}Verdict\n" > Trace$1.cfg
