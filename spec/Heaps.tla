------------------------------- MODULE Heaps -------------------------------
(* Mergeable priority queues.
   Abstract state of leftist heaps: handle -> sorted sequence of the values
   present (a multiset), or "none" before creation and after being merged away.
   Abstract state of pairing heaps: value -> key (the live entries).
   An operation is a tuple <<name, args...>>; an outcome carries the returned
   value and, where the interface allows it, an observation of the object.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Judge

Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
Ok(st) == [v |-> "ok", st |-> st]
No(name, st) == [v |-> name, st |-> st]
Done(v, st, st2) == IF v = "ok" THEN Ok(st2) ELSE No(v, st)

(* ---------------- leftist heaps ---------------- *)
LInit(in) == [x \in 1 .. 3 |-> <<>>]

LNew(st, i, vals) == [st EXCEPT ![i] = Sorted(vals)]
LInsert(st, i, x) == [st EXCEPT ![i] = Sorted(Append(st[i], x))]
LDelete(st, i) == IF st[i] = <<>> THEN st ELSE [st EXCEPT ![i] = Tail(st[i])]
LMerge(st, i, j) == [st EXCEPT ![i] = Sorted(st[i] \o st[j]), ![j] = <<>>]

\* outcome value of a mutating call: length afterwards; of queries: the result
LStep(st, op, out) ==
  CASE op[1] = "new" -> LET s2 == LNew(st, op[2], op[3]) IN Done(Is(out, Len(s2[op[2]])), st, s2)
    [] op[1] = "insert" -> LET s2 == LInsert(st, op[2], op[3]) IN Done(Is(out, Len(s2[op[2]])), st, s2)
    [] op[1] = "delete_min" ->
         LET s2 == LDelete(st, op[2])
         IN Done(Is(out, IF st[op[2]] = <<>> THEN <<0, 0>> ELSE <<Len(s2[op[2]]), 1, Head(st[op[2]])>>), st, s2)
    [] op[1] = "find_min" -> Done(Is(out, Head(st[op[2]])), st, st)
    [] op[1] = "insert_many" -> LET s2 == LNew(st, op[2], st[op[2]] \o op[3]) IN Done(Is(out, Len(s2[op[2]])), st, s2)
    [] op[1] = "delete_many" ->     \* k deletions of a heap with at least k values
         LET s == st[op[2]]
         IN Done(Is(out, <<SubSeq(s, 1, op[3]), Len(s) - op[3]>>), st, [st EXCEPT ![op[2]] = SubSeq(s, op[3] + 1, Len(s))])
    [] op[1] = "merge" -> LET s2 == LMerge(st, op[2], op[3]) IN Done(Is(out, Len(s2[op[2]])), st, s2)
    [] op[1] = "drain" ->     \* iteration: every element once, in order
         Done(Is(out, st[op[2]]), st, [st EXCEPT ![op[2]] = <<>>])

(* ---------------- pairing heaps ---------------- *)
PInit(in) == <<>>
Live(st) == DOMAIN st
PInsert(st, x, k) == (x :> k) @@ st
PMinKeys(st) == { x \in Live(st) : \A y \in Live(st) : st[x] <= st[y] }
PRemove(st, x) == [y \in Live(st) \ {x} |-> st[y]]
Entries(st) == { <<st[x], x>> : x \in Live(st) }
SeqSet(s) == { s[i] : i \in 1 .. Len(s) }

PStep(st, op, out) ==
  CASE op[1] = "insert" -> Done(Is(out, 0), st, PInsert(st, op[3], op[2]))
    [] op[1] = "insert_values" ->
         Done(Is(out, 0), st, [x \in SeqSet([i \in 1 .. Len(op[2]) |-> op[2][i][2]]) |->
                op[2][CHOOSE i \in 1 .. Len(op[2]) : op[2][i][2] = x][1]] @@ st)
    [] op[1] = "decrease_key" -> Done(Is(out, 0), st, [st EXCEPT ![op[2]] = op[3]])
    [] op[1] = "list" ->
         Done(Holds(out, "entries", LAMBDA r : SeqSet(r) = Entries(st) /\ Len(r) = Cardinality(Live(st))), st, st)
    [] op[1] = "delete_min" ->
         IF Live(st) = {} THEN Done(Is(out, <<>>), st, st)
         ELSE IF out.k # "ret" THEN No("outcome:" \o out.k, st)
         ELSE LET r == out.v        \* <<key, value>>
              IN CASE Len(r) # 2 -> No("no-entry", st)
                   [] r[2] \notin Live(st) -> No("not-live", st)
                   [] st[r[2]] # r[1] -> No("key-of-value", st)
                   [] r[2] \notin PMinKeys(st) -> No("not-minimum", st)
                   [] OTHER -> Ok(PRemove(st, r[2]))
=============================================================================
