------------------------------ MODULE HistCore ------------------------------
(* Trace validation of stateful objects: every recorded history is one
   behaviour; st is the abstract state of the specification; every step
   consumes one recorded call, which must be a step the specification allows
   from st with the recorded outcome.  A history is left at the first call
   that is not allowed.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS InitState(_), Step(_, _, _)

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
VARIABLES h, l, st
vars == <<h, l, st>>

Ops(i) == Log[i].in.ops
Init == /\ h \in 1 .. N /\ l = 0
        /\ st = InitState(Log[h].in)
        /\ IF Log[h].out.k = "ret" /\ Len(Log[h].out.v) = Len(Ops(h)) THEN TRUE
           ELSE PrintT("REJECT|" \o ToString(h) \o "|history:" \o Log[h].out.k)

Next == /\ Log[h].out.k = "ret"
        /\ l < Len(Ops(h)) /\ l < Len(Log[h].out.v)
        /\ LET op == Ops(h)[l + 1]
               r == Step(st, op, Log[h].out.v[l + 1])
           IN IF r.v = "ok" THEN st' = r.st /\ l' = l + 1 /\ h' = h
              ELSE /\ PrintT("REJECT|" \o ToString(h) \o "|" \o op[1] \o ":" \o r.v)
                   /\ l' = Len(Ops(h)) /\ st' = st /\ h' = h

Spec == Init /\ [][Next]_vars
=============================================================================
