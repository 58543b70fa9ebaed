------------------------------ MODULE PermArg ------------------------------
(***************************************************************************)
(* Why the constraints on the aggregation polynomials enforce the copies.  *)
(* K columns of U usable rows hold values; a permutation sigma ties cells. *)
(* Column c, row i carries the identifier Shift^c * W^i.  The columns are  *)
(* split over aggregation columns, M to each.  The values are fixed before *)
(* beta and gamma are drawn; the aggregation columns may then be anything  *)
(* meeting the constraints:                                                *)
(*    start  the first one starts at one                                   *)
(*    step   the grand product step on each usable row                     *)
(*    chain  each next one starts where the previous ended                 *)
(*    end    the last one ends at zero or one                              *)
(* Reach is the set of values an aggregation column can hold, row by row.  *)
(* drop names a constraint left out: then the bound does not hold.         *)
(***************************************************************************)
EXTENDS Fld, TLC
CONSTANTS U, K, M, W, Shift, Values

Cells == (0..(K - 1)) \X (0..(U - 1))
Id == [c \in Cells |-> Mul(PowF(Shift, c[1]), PowF(W, c[2]))]
ASSUME \A c, d \in Cells : c # d => Id[c] # Id[d]
Perms == {f \in [Cells -> Cells] : \A c, d \in Cells : c # d => f[c] # f[d]}
All == 0..(P - 1)
InvT == [x \in All |-> IF x = 0 THEN 0 ELSE Inv(x)]

NZ == (K + M - 1) \div M
Cols == [k \in 0..(NZ - 1) |-> {c \in 0..(K - 1) : c \div M = k}]

RECURSIVE ProdC(_, _)
ProdC(S, f) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN Mul(f[x], ProdC(S \ {x}, f))
Den(v, g, k, i, be, ga) == ProdC(Cols[k], [c \in Cols[k] |-> Add(v[<<c, i>>], Add(Mul(be, Id[g[<<c, i>>]]), ga))])
Num(v, g, k, i, be, ga) == ProdC(Cols[k], [c \in Cols[k] |-> Add(v[<<c, i>>], Add(Mul(be, Id[<<c, i>>]), ga))])

\* the z' with  z' * den = z * num  for some z of Z
StepSet(Z, num, den) ==
  IF den # 0 THEN {Mul(Mul(z, num), InvT[den]) : z \in Z}
  ELSE IF (num = 0 /\ Z # {}) \/ 0 \in Z THEN All ELSE {}

RECURSIVE Reach(_, _, _, _, _, _, _, _)
\* the values the k-th aggregation column can hold in row i, starting from those of Z
Reach(drop, v, g, k, i, Z, be, ga) ==
  IF i = 0 THEN Z
  ELSE IF drop = "step" THEN All
  ELSE StepSet(Reach(drop, v, g, k, i - 1, Z, be, ga), Num(v, g, k, i - 1, be, ga), Den(v, g, k, i - 1, be, ga))
RECURSIVE Ends(_, _, _, _, _, _)
Ends(drop, v, g, k, be, ga) ==
  LET Z == IF k = 0 THEN (IF drop = "start" THEN All ELSE {1})
           ELSE IF drop = "chain" THEN All ELSE Ends(drop, v, g, k - 1, be, ga)
  IN Reach(drop, v, g, k, U, Z, be, ga)
Accepts(drop, v, g, be, ga) == drop = "end" \/ Ends(drop, v, g, NZ - 1, be, ga) \cap {0, 1} # {}
Good(drop, v, g) == {x \in All \X All : Accepts(drop, v, g, x[1], x[2])}
\* the product is one, a denominator is zero or the end is zero: each is a nonzero
\* polynomial of degree U * K in the challenges
Bound == 3 * U * K * P

Copied(v, g) == \A c \in Cells : v[c] = v[g[c]]
\* challenges at which some denominator is zero
Degenerate(v, g, be, ga) == \E k \in 0..(NZ - 1), i \in 0..(U - 1) : Den(v, g, k, i, be, ga) = 0

\* each constraint is needed: the two ends of the first and last column are tied but differ
ASSUME LET lo == <<0, 0>>  hi == <<K - 1, U - 1>>
           v == [c \in Cells |-> IF c = hi THEN 1 ELSE 0]
           g == [c \in Cells |-> IF c = lo THEN hi ELSE IF c = hi THEN lo ELSE c]
       IN \A drop \in {"start", "step", "end"} \cup (IF NZ > 1 THEN {"chain"} ELSE {}) :
            ~Copied(v, g) /\ Cardinality(Good(drop, v, g)) > Bound

VARIABLES val, sigma
vars == <<val, sigma>>
Init == val \in [Cells -> Values] /\ sigma = << >>
Next == sigma = << >> /\ sigma' \in Perms /\ UNCHANGED val
Spec == Init /\ [][Next]_vars

\* copies that hold are proved at all challenges where the grand product is defined
Complete == sigma # << >> /\ Copied(val, sigma) =>
              \A be, ga \in All : Degenerate(val, sigma, be, ga) \/ Accepts("none", val, sigma, be, ga)
\* copies that do not hold are proved for few challenges
Sound == sigma # << >> /\ ~Copied(val, sigma) => Cardinality(Good("none", val, sigma)) <= Bound
=============================================================================
