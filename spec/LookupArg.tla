----------------------------- MODULE LookupArg -----------------------------
(***************************************************************************)
(* Why the constraints of the lookup argument enforce membership.  The     *)
(* looked-up column a, the table s and the prover's rearrangements ap, sp  *)
(* hold U usable rows and are fixed before beta and gamma are drawn; the   *)
(* aggregation column may then be anything meeting the constraints.  drop  *)
(* names a constraint left out: then the bound does not hold.              *)
(***************************************************************************)
EXTENDS Fld, TLC
CONSTANTS U, Values

Rows == 1..U
All == 0..(P - 1)
InvT == [x \in All |-> IF x = 0 THEN 0 ELSE Inv(x)]
Columns == [Rows -> Values]

Member(a, s) == \A i \in Rows : \E j \in Rows : a[i] = s[j]
First(drop, ap, sp) == drop = "first" \/ ap[1] = sp[1]
\* the predecessor of the first row is the last row of the domain, which is not usable
Each(drop, ap, sp) == drop = "each" \/ \A i \in Rows \ {1} : ap[i] = sp[i] \/ ap[i] = ap[i - 1]

StepSet(Z, num, den) ==
  IF den # 0 THEN {Mul(Mul(z, num), InvT[den]) : z \in Z}
  ELSE IF (num = 0 /\ Z # {}) \/ 0 \in Z THEN All ELSE {}
RECURSIVE Reach(_, _, _, _, _, _, _, _)
Reach(drop, a, s, ap, sp, i, be, ga) ==
  IF i = 0 THEN (IF drop = "start" THEN All ELSE {1})
  ELSE IF drop = "step" THEN All
  ELSE StepSet(Reach(drop, a, s, ap, sp, i - 1, be, ga), Mul(Add(a[i], be), Add(s[i], ga)), Mul(Add(ap[i], be), Add(sp[i], ga)))
Accepts(drop, a, s, ap, sp, be, ga) == drop = "end" \/ Reach(drop, a, s, ap, sp, U, be, ga) \cap {0, 1} # {}
Good(drop, a, s, ap, sp) ==
  IF First(drop, ap, sp) /\ Each(drop, ap, sp) THEN {x \in All \X All : Accepts(drop, a, s, ap, sp, x[1], x[2])} ELSE {}
Bound == 3 * 2 * U * P

\* each constraint is needed: without it some prover passes with a value that is not in the table
ASSUME \A drop \in {"start", "step", "end", "first", "each"} :
         \E x \in {0, 1} :
           LET zero == [i \in Rows |-> 0]
               a == [i \in Rows |-> IF i = 1 THEN x ELSE 1]
               ap == IF drop \in {"first", "each"} THEN a ELSE zero
           IN ~Member(a, zero) /\ Cardinality(Good(drop, a, zero, ap, zero)) > Bound

VARIABLES a, s, ap, sp
vars == <<a, s, ap, sp>>
Init == a \in Columns /\ s \in Columns /\ ap = << >> /\ sp = << >>
Next == ap = << >> /\ ap' \in Columns /\ sp' \in Columns /\ UNCHANGED <<a, s>>
Spec == Init /\ [][Next]_vars

\* a rearrangement: every value as often
SameBag(f, g) == \A v \in Values : Cardinality({i \in Rows : f[i] = v}) = Cardinality({i \in Rows : g[i] = v})
Structured == ap # << >> /\ First("none", ap, sp) /\ Each("none", ap, sp)
Arranged == Structured /\ SameBag(a, ap) /\ SameBag(s, sp)

\* a proper rearrangement only exists for members, and passes wherever the product is defined
Complete == Arranged =>
  /\ Member(a, s)
  /\ \A be, ga \in All : (\A i \in Rows : Add(ap[i], be) # 0 /\ Add(sp[i], ga) # 0) => Accepts("none", a, s, ap, sp, be, ga)
\* anything else passes for few challenges only
Sound == Structured /\ ~(SameBag(a, ap) /\ SameBag(s, sp)) => Cardinality(Good("none", a, s, ap, sp)) <= Bound
\* so what is not in the table does not pass
Enforced == ap # << >> /\ ~Member(a, s) => ~Arranged
=============================================================================
