-------------------------------- MODULE Fld --------------------------------
(***************************************************************************)
(* Arithmetic in the prime field of P elements, P < 46341 so that products *)
(* stay inside TLC's integers.  P = 0 means plain integers: used for       *)
(* circuits over large fields whose cells are small enough never to wrap.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT P

Nm(x) == IF P = 0 THEN x ELSE x % P
Add(x, y) == Nm(x + y)
Sub(x, y) == Nm(x - y)
Mul(x, y) == Nm(x * y)
Neg(x) == Nm(-x)

RECURSIVE PowF(_, _)
PowF(x, k) ==
  IF k = 0 THEN 1
  ELSE IF k % 2 = 1 THEN Mul(x, PowF(x, k - 1))
  ELSE LET h == PowF(x, k \div 2) IN Mul(h, h)

Inv(x) == PowF(Nm(x), P - 2)
Div(x, y) == Mul(x, Inv(y))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE Add(Head(s), SumSeq(Tail(s)))
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = << >> THEN 1 ELSE Mul(Head(s), ProdSeq(Tail(s)))

\* polynomial with coefficients c (constant first) at x
RECURSIVE Horner(_, _)
Horner(c, x) == IF c = << >> THEN 0 ELSE Add(Head(c), Mul(x, Horner(Tail(c), x)))

\* powers of a generator g of multiplicative order n:  g^(j mod n)
Omega(g, n, j) == PowF(g, j % n)

\* value at x of the polynomial of degree < n taking value rows[i+1] at g^i
LagrangeAt(rows, g, n, x) ==
  LET zh == Sub(PowF(x, n), 1)
      ninv == Inv(n)
      onrow == {i \in 0..(n - 1) : Omega(g, n, i) = Nm(x)}
  IN IF onrow # {} THEN Nm(rows[(CHOOSE i \in onrow : TRUE) + 1])
     ELSE Mul(Mul(zh, ninv),
              SumSeq([k \in 1..n |-> Mul(Nm(rows[k]),
                        Div(Omega(g, n, k - 1), Sub(x, Omega(g, n, k - 1))))]))

\* value at x of the k-th Lagrange basis polynomial of the domain
BasisAt(k, g, n, x) == LagrangeAt([i \in 1..n |-> IF i = k + 1 THEN 1 ELSE 0], g, n, x)
=============================================================================
