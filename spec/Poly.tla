-------------------------------- MODULE Poly --------------------------------
(* Univariate polynomials over the field of Fld as coefficient sequences, constant first. *)
EXTENDS Fld

At(p, k) == IF k <= Len(p) THEN p[k] ELSE 0
Longer(p, q) == IF Len(p) >= Len(q) THEN Len(p) ELSE Len(q)
PAdd(p, q) == [k \in 1..Longer(p, q) |-> Add(At(p, k), At(q, k))]
PSub(p, q) == [k \in 1..Longer(p, q) |-> Sub(At(p, k), At(q, k))]
PScale(p, c) == [k \in 1..Len(p) |-> Mul(p[k], c)]
RECURSIVE SumTo(_, _, _, _)
SumTo(p, q, k, i) ==  \* sum over j <= i of p_j q_(k-j)
  IF i = 0 THEN 0 ELSE Add(Mul(At(p, i), IF k + 1 - i >= 1 THEN At(q, k + 1 - i) ELSE 0), SumTo(p, q, k, i - 1))
PMul(p, q) == IF p = << >> \/ q = << >> THEN << >> ELSE [k \in 1..(Len(p) + Len(q) - 1) |-> SumTo(p, q, k, IF k < Len(p) THEN k ELSE Len(p))]
\* degree, with 0 for the zero polynomial
Deg(p) == LET nz == {k \in 1..Len(p) : p[k] # 0} IN IF nz = {} THEN 0 ELSE (CHOOSE k \in nz : \A m \in nz : m <= k) - 1
\* coefficients of the polynomial with value rows[i+1] at g^i, g of order n
RECURSIVE DotPow(_, _, _)
DotPow(rows, y, i) == IF i > Len(rows) THEN 0 ELSE Add(Mul(Nm(rows[i]), PowF(y, i - 1)), DotPow(rows, y, i + 1))
Interp(rows, g) ==
  LET n == Len(rows)
      gi == Inv(g)
      ni == Inv(n)
  IN [k \in 1..n |-> Mul(ni, DotPow(rows, PowF(gi, k - 1), 1))]
\* p(c X)
PDilate(p, c) == [k \in 1..Len(p) |-> Mul(p[k], PowF(c, k - 1))]
=============================================================================
