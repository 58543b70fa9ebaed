-------------------------------- MODULE Gates --------------------------------
(***************************************************************************)
(* The relations the precompiled gates and lookups are documented to       *)
(* enforce, on the values w, i, f of the current row and wn of the next.   *)
(***************************************************************************)
EXTENDS Fld, TLC

Bit(x, k) == (x \div k) % 2
BAnd(a, b) == Bit(a, 1) * Bit(b, 1) + 2 * Bit(a, 2) * Bit(b, 2)
BXor(a, b) == ((Bit(a, 1) + Bit(b, 1)) % 2) + 2 * ((Bit(a, 2) + Bit(b, 2)) % 2)
P5(x) == Mul(x, Mul(Mul(x, x), Mul(x, x)))
\* documented polynomial of the and/xor gate: G = H + E
XorAndG(a, b, c, d, q) ==
  LET F == Mul(c, Nm(Mul(c, Nm(4 * c - 18 * (a + b) + 81)) + Mul(18, Nm(Mul(a, a) + Mul(b, b))) - 81 * Nm(a + b) + 83))
      E == Nm(3 * (a + b + d) - 2 * F)
      H == Mul(q, Nm(9 * d - 3 * (a + b)))
  IN Nm(H + E)
TwoBits == 0..3

Holds(g, w, wn, i, f) ==
  CASE g = "mul" -> Mul(w[1], w[2]) = Nm(i[1])
    [] g = "arith" -> Nm(Mul(f[1], Mul(w[1], w[2])) + Mul(f[2], w[1]) + Mul(f[3], w[2]) + Mul(f[4], w[3]) + f[5] + i[1]) = 0
    [] g = "arith4" -> \* selectors: product, left, right, fourth, output, constant
         Nm(Mul(f[1], Mul(w[1], w[2])) + Mul(f[2], w[1]) + Mul(f[3], w[2]) + Mul(f[4], w[4]) + Mul(f[5], w[3]) + f[6] + i[1]) = 0
    [] g = "rescue" -> Nm(Mul(f[1], P5(w[1])) + Mul(f[2], P5(w[2])) + Mul(f[3], P5(w[3])) + Mul(f[4], P5(w[4]))) = w[5]
    [] g = "delta" -> f[1] = 1 \/ Nm(wn[1] - 4 * w[1]) \in TwoBits
    [] g = "xorand" ->
         IF w[1] \in TwoBits /\ w[2] \in TwoBits /\ w[3] = w[1] * w[2] /\ f[1] \in {1, P - 1}
         THEN w[4] = (IF f[1] = 1 THEN BAnd(w[1], w[2]) ELSE BXor(w[1], w[2]))
         ELSE XorAndG(w[1], w[2], w[3], w[4], f[1]) = 0
\* what the relation is about: all of it must be read, and registered
Reads(g) ==
  LET S(t, m) == {<<t \o ToString(k), 0>> : k \in 0..(m - 1)} IN
  CASE g = "mul" -> S("w", 2) \cup S("i", 1)
    [] g = "arith" -> S("w", 3) \cup S("i", 1) \cup S("f", 5)
    [] g = "arith4" -> S("w", 4) \cup S("i", 1) \cup S("f", 6)
    [] g = "rescue" -> S("w", 5) \cup S("f", 4)
    [] g = "delta" -> {<<"w0", 0>>, <<"w0", 1>>, <<"f0", 0>>}
    [] g = "xorand" -> S("w", 4) \cup S("f", 1)
    [] g = "lookup:simple1" -> {<<"w0", 0>>, <<"t0", 0>>}
    [] g = "lookup:simple3" -> S("w", 3) \cup S("t", 3)
=============================================================================
