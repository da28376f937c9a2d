----------------------------- MODULE TraceCore -----------------------------
(* Trace validation of recorded calls.  The log is cut into independent
   chunks (one initial state each, so that TLC's workers share the load);
   every step of a behaviour consumes one recorded event and evaluates the
   specification's verdict on it.  Rejected events are printed and the walk
   goes on, so one run judges the whole log; the runner accepts the log only
   if no event was rejected and the number of distinct states equals
   (events + chunks), i.e. every event was consumed.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Verdict(_)

Log == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Log)
Chunk == 8
Chunks == (N + Chunk - 1) \div Chunk

VARIABLES c, l
vars == <<c, l>>

Init == c \in 0 .. Chunks - 1 /\ l = c * Chunk

Judge(i) == LET v == Verdict(Log[i])
            IN  IF v = "ok" THEN TRUE ELSE PrintT("REJECT|" \o ToString(i) \o "|" \o v)

Next == /\ l < N /\ l < (c + 1) * Chunk
        /\ l' = l + 1 /\ c' = c
        /\ Judge(l + 1)

Spec == Init /\ [][Next]_vars
=============================================================================
