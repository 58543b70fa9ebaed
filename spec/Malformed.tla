----------------------------- MODULE Malformed -----------------------------
(***************************************************************************)
(* Enumerates the ways in which the vectors of a proof can be empty,       *)
(* truncated, extended, permuted or zeroed: one change, or two changes in  *)
(* different vectors.  Each state prints the change for the harness.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Pairs    \* TRUE: also two changes

VF == {"witness_commitments", "witness_evals", "fixed_oracle_evals", "table_oracle_evals", "permutation_oracle_evals",
       "lookup_commitments", "lookup_z_commitments", "lookup_evals", "lookup_z_evals", "z_commitments", "z_evals",
       "quotient_chunk_commitments", "quotient_chunks_evals", "q_evals"}
Whole == {"empty", "droplast", "append", "prepend", "append0", "zero", "reverse", "rotate", "double"}
At == {"drop", "dup", "set0"}
One == {[f |-> f, op |-> o, i |-> 0] : f \in VF, o \in Whole}
       \cup {[f |-> f, op |-> o, i |-> i] : f \in VF, o \in At, i \in 0..2}
       \cup {[f |-> "q_blind_eval", op |-> "zero", i |-> 0], [f |-> "f_commit", op |-> "zero", i |-> 0]}
Coarse == {[f |-> f, op |-> o, i |-> 0] : f \in VF, o \in {"empty", "droplast", "append"}}

VARIABLE m
Init == m = << >>
Next == /\ \/ /\ m = << >>
              /\ \E c \in One : m' = <<c>>
           \/ /\ Pairs /\ Len(m) = 1 /\ m[1] \in Coarse
              /\ \E c \in Coarse : c.f # m[1].f /\ m' = m \o <<c>>
        /\ PrintT("MUT " \o ToJson(m'))
Spec == Init /\ [][Next]_m
=============================================================================
