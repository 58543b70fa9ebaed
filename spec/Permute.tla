------------------------------- MODULE Permute -------------------------------
(***************************************************************************)
(* Rearranging a looked-up column a against a table s, step by step: group *)
(* equal inputs, give the first of each group its own value from the       *)
(* table, then hand out what is left of the table to the other rows.       *)
(* All inputs over V values and lengths up to MaxN are explored, with any  *)
(* order of the groups and of the left-overs.                              *)
(***************************************************************************)
EXTENDS PermuteRel, TLC, Json, SequencesExt

CONSTANTS V, MaxN, Emit
VARIABLES a, s, pa, ps, left, todo, pc
vars == <<a, s, pa, ps, left, todo, pc>>
Vals == 0..(V - 1)
Hole == -1

Seqs == UNION {[1..n -> Vals] : n \in 0..MaxN}
Init ==
  /\ a \in Seqs /\ s \in Seqs
  /\ pa = << >> /\ ps = << >> /\ todo = {} /\ pc = "group"
  /\ left = [v \in Vals |-> Occ(s, v)]

\* the groups are emitted one value at a time, in any order
Group ==
  /\ pc = "group"
  /\ IF Len(a) # Len(s) THEN pc' = "refused" /\ UNCHANGED <<a, s, pa, ps, left, todo>>
     ELSE \/ \E v \in Elems(a) \ Elems(pa) :
               IF left[v] = 0 THEN pc' = "refused" /\ UNCHANGED <<a, s, pa, ps, left, todo>>
               ELSE LET k == Occ(a, v) IN
                    /\ pa' = pa \o [i \in 1..k |-> v]
                    /\ ps' = ps \o [i \in 1..k |-> IF i = 1 THEN v ELSE Hole]
                    /\ todo' = todo \cup {Len(pa) + i : i \in 2..k}
                    /\ left' = [left EXCEPT ![v] = @ - 1]
                    /\ UNCHANGED <<a, s, pc>>
          \/ Elems(a) = Elems(pa) /\ pc' = "fill" /\ UNCHANGED <<a, s, pa, ps, left, todo>>
Fill ==
  /\ pc = "fill"
  /\ IF todo = {} THEN pc' = "done" /\ UNCHANGED <<a, s, pa, ps, left, todo>>
     ELSE LET i == CHOOSE k \in todo : \A m \in todo : m <= k IN
          \E v \in {x \in Vals : left[x] > 0} :
            /\ ps' = [ps EXCEPT ![i] = v]
            /\ left' = [left EXCEPT ![v] = @ - 1]
            /\ todo' = todo \ {i}
            /\ UNCHANGED <<a, s, pa, pc>>
Next == Group \/ Fill
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == pc \in {"group", "fill", "done", "refused"} /\ Len(pa) = Len(ps) /\ todo = {i \in 1..Len(ps) : ps[i] = Hole}
\* the table has exactly as many left-overs as there are rows without a value
Balanced == pc \in {"fill", "done"} => \A n \in {Cardinality(todo)} : n = left[0] + (IF V > 1 THEN left[1] ELSE 0) + (IF V > 2 THEN left[2] ELSE 0) + (IF V > 3 THEN left[3] ELSE 0)
DoneCorrect == pc = "done" => Correct(a, s, pa, ps)
DoneIff == (pc = "done" => Accepts(a, s)) /\ (pc = "refused" => ~Accepts(a, s))
Never == pc = "fill" /\ todo # {} => \E v \in Vals : left[v] > 0
Ends == <>(pc \in {"done", "refused"})
=============================================================================
