----------------------------- MODULE Partition -----------------------------
(* Disjoint sets.  Abstract state: the partition, and for each block the
   representative or name last reported for it (0 if not yet known).
   Unnamed structure: any member may represent a block, but the choice only
   changes when the block is united.  Named structure: the name is exactly the
   one given by the last union (initially the element itself).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Judge

BlockOf(P, x) == CHOOSE b \in P : x \in b

Ok(st) == [v |-> "ok", st |-> st]
No(name, st) == [v |-> name, st |-> st]

(* ---- unnamed ---- *)
UInit(in) == [p |-> { {x} : x \in 1 .. in.n }, rep |-> [x \in 1 .. in.n |-> 0]]

\* rep is stored on every element of the block
SetRep(st, b, r) == [st EXCEPT !.rep = [x \in DOMAIN st.rep |-> IF x \in b THEN r ELSE st.rep[x]]]
Unite(st, x, y) ==
  LET a == BlockOf(st.p, x)
      b == BlockOf(st.p, y)
  IN IF a = b THEN st
     ELSE SetRep([st EXCEPT !.p = (st.p \ {a, b}) \cup {a \cup b}], a \cup b, 0)

FindOk(st, x, r) == LET b == BlockOf(st.p, x)
                    IN r \in b /\ (st.rep[x] = 0 \/ st.rep[x] = r)

RECURSIVE FindAll(_, _, _)
FindAll(st, i, rs) ==
  IF i > Len(rs) THEN Ok(st)
  ELSE IF ~ FindOk(st, i, rs[i]) THEN No(IF rs[i] \in BlockOf(st.p, i) THEN "representative-unstable" ELSE "wrong-block", st)
       ELSE FindAll(SetRep(st, BlockOf(st.p, i), rs[i]), i + 1, rs)

UStep(st, op, out) ==
  IF out.k # "ret" THEN No("outcome:" \o out.k, st)
  ELSE CASE op[1] = "find" ->
              IF FindOk(st, op[2], out.v) THEN Ok(SetRep(st, BlockOf(st.p, op[2]), out.v))
              ELSE No(IF out.v \in BlockOf(st.p, op[2]) THEN "representative-unstable" ELSE "wrong-block", st)
         [] op[1] \in {"unite", "unite_elements"} ->   \* outcome: the two representatives before
              IF ~ FindOk(st, op[2], out.v[1]) \/ ~ FindOk(st, op[3], out.v[2]) THEN No("representative", st)
              ELSE IF (out.v[1] = out.v[2]) # (BlockOf(st.p, op[2]) = BlockOf(st.p, op[3])) THEN No("same-set", st)
              ELSE Ok(Unite(st, op[2], op[3]))
         [] op[1] = "all" -> IF Len(out.v) # Cardinality(DOMAIN st.rep) THEN No("size", st) ELSE FindAll(st, 1, out.v)

(* ---- named ---- *)
NInit(in) == [p |-> { {x} : x \in 1 .. in.n }, rep |-> [x \in 1 .. in.n |-> x]]
NStep(st, op, out) ==
  IF out.k # "ret" THEN No("outcome:" \o out.k, st)
  ELSE CASE op[1] = "find" -> IF out.v = st.rep[op[2]] THEN Ok(st) ELSE No("name", st)
         [] op[1] = "union" ->     \* <<"union", name u, name v, new name w>>
              LET a == { x \in DOMAIN st.rep : st.rep[x] \in {op[2], op[3]} }
                  P == (st.p \ { b \in st.p : b \subseteq a }) \cup {a}
              IN Ok(SetRep([st EXCEPT !.p = P], a, op[4]))
         [] op[1] = "all" -> IF out.v = [x \in 1 .. Cardinality(DOMAIN st.rep) |-> st.rep[x]] THEN Ok(st) ELSE No("name", st)
=============================================================================
