------------------------------ MODULE FoldArg ------------------------------
(***************************************************************************)
(* Why folding with powers of a challenge keeps values apart.              *)
(*  tuples     a looked-up tuple that is no row of the table folds to the  *)
(*             fold of one for few theta only                              *)
(*  separate   constraint values that are not all zero sum up to zero,     *)
(*             weighted by distinct powers of alpha, for few alpha only    *)
(* The powers have to be distinct: with a shared one, tuples are confused. *)
(***************************************************************************)
EXTENDS Fld, TLC
CONSTANTS Width, Values

All == 0..(P - 1)
Tuples == [1..Width -> Values]
Fold(t, th) == Horner(t, th)
\* the last entry weighted as its predecessor
Shared(t, th) == Add(Horner(SubSeq(t, 1, Width - 1), th), Mul(t[Width], PowF(th, Width - 2)))
ASSUME \E x, y \in Tuples : x # y /\ \A th \in All : Shared(x, th) = Shared(y, th)

VARIABLES t, table
vars == <<t, table>>
Init == t \in Tuples /\ table = << >>
Next == table = << >> /\ table' \in Tuples \X Tuples /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

Colliding == {th \in All : \E k \in 1..Len(table) : Fold(table[k], th) = Fold(t, th)}
Separate == (\A k \in 1..Len(table) : t # table[k]) => Cardinality(Colliding) <= (Width - 1) * Len(table)
Zeros == {al \in All : Fold(t, al) = 0}
Separated == (\E k \in 1..Width : t[k] # 0) => Cardinality(Zeros) <= Width - 1
=============================================================================
