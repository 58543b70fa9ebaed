------------------------------- MODULE Sizes -------------------------------
(***************************************************************************)
(* How large the quotient of a circuit can get, which extended domain      *)
(* holds it, and which circuits an indexer may refuse.                     *)
(***************************************************************************)
EXTENDS Circuit

\* every column is a polynomial of degree n - 1
ColDegree(C) == C.n - 1
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF s = << >> THEN 0 ELSE Max(Head(s), MaxSeq(Tail(s)))
GateDegree(C) == MaxSeq([k \in 1..Len(C.gates) |-> Degree(C.gates[k], ColDegree(C))])
ZhDegree(C) == C.n - Len(C.removed)
NCopied(C) == Len(PermCols(C))

\* largest degree among all constraints when every aggregation polynomial covers m columns
CopyDegree(C, m) == IF NCopied(C) = 0 THEN 0 ELSE (m + 2) * (C.n - 1)
InputDegree(C) == MaxSeq([k \in 1..Len(C.lookups) |->
                    MaxSeq([j \in 1..Len(C.lookups[k].exprs) |-> Degree(C.lookups[k].exprs[j], ColDegree(C))])])
LookupDegree(C) == IF C.lookups = << >> THEN 0
                   ELSE 3 * (C.n - 1) + Max(C.n - 1, InputDegree(C))   \* active row indicator, product, folded table; folded input
TotalDegree(C, m) == Max(GateDegree(C), Max(CopyDegree(C, m), LookupDegree(C)))

\* an extended domain of this size holds every coefficient of the quotient
FitsWith(C, ext, m) ==
  /\ ext % C.n = 0
  /\ NCopied(C) > 0 => ext \div C.n >= 2
  /\ TotalDegree(C, m) - ZhDegree(C) + 1 <= ext
PerZ(C, ext) == (ext \div C.n) - 1
Fits(C, ext) == FitsWith(C, ext, IF NCopied(C) < PerZ(C, ext) THEN NCopied(C) ELSE PerZ(C, ext))
\* the same however many columns there are to copy
FitsAny(C, ext) == FitsWith(C, ext, PerZ(C, ext))

RECURSIVE IsPow2(_)
IsPow2(k) == k = 1 \/ (k > 0 /\ k % 2 = 0 /\ IsPow2(k \div 2))

\* a circuit without a constraint of degree at least two has no quotient to speak of, and a
\* field has subgroups of size at most 2^a only; what counts then is the size needed for
\* aggregation polynomials covering as many columns as the extended domain lets them
Refusable(C, maxsub) ==
  \/ GateDegree(C) - ZhDegree(C) + 1 <= C.n \div 2
  \/ GateDegree(C) < ZhDegree(C)
  \/ ~\E e \in {x \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192} : x <= maxsub} : e >= C.n /\ FitsAny(C, e)
=============================================================================
