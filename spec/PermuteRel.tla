----------------------------- MODULE PermuteRel -----------------------------
(***************************************************************************)
(* What rearranging a looked-up column against its table has to produce.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Occ(s, v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Elems(s) == {s[i] : i \in 1..Len(s)}
Rearranged(x, y) == Len(x) = Len(y) /\ Elems(x) = Elems(y) /\ \A v \in Elems(x) : Occ(x, v) = Occ(y, v)

InTable(a, s) == Elems(a) \subseteq Elems(s)
\* the input exists only for equal lengths and contained values
Accepts(a, s) == Len(a) = Len(s) /\ InTable(a, s)
Aligned(pa, ps) == \A i \in 1..Len(pa) : pa[i] = ps[i] \/ (i > 1 /\ pa[i] = pa[i - 1])
Correct(a, s, pa, ps) == Rearranged(a, pa) /\ Rearranged(s, ps) /\ Aligned(pa, ps)
=============================================================================
