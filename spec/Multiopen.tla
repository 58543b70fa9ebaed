------------------------------ MODULE Multiopen ------------------------------
(***************************************************************************)
(* Opening many committed polynomials at many points with one proof.       *)
(* Columns with the same set of rotations form a group.  Group g has the   *)
(* combined polynomial Q_g = sum x1^i A_i, the points z_g and the          *)
(* combined claims r_g.  The proof carries f, claimed to be                *)
(*     sum_g x2^g (Q_g - r_g) / z_g,                                       *)
(* and the values q_g, claimed to be Q_g(x3); everything is opened at x3   *)
(* with the powers of x4.                                                  *)
(*                                                                         *)
(* L is a layout: n, om, xi, cols (sequence of [co |-> coefficients,       *)
(* rots |-> sequence of integers]).  A challenge vector is <<x1,x2,x3,x4>>.*)
(***************************************************************************)
EXTENDS Fld

Pt(L, r) == Mul(Nm(L.xi), Omega(L.om, L.n, r % L.n))
RotSet(c) == {c.rots[k] : k \in 1..Len(c.rots)}
Points(L, c) == [k \in 1..Len(c.rots) |-> Pt(L, c.rots[k])]

\* two rotations of one column meeting in a point (xi # 0)
Aliased(L) == \E i \in 1..Len(L.cols) :
                \E a, b \in RotSet(L.cols[i]) : a # b /\ a % L.n = b % L.n

\* distinct rotation sets, in order of first appearance
RECURSIVE KeysFrom(_, _, _)
KeysFrom(cols, k, acc) ==
  IF k > Len(cols) THEN acc
  ELSE IF \E m \in 1..Len(acc) : acc[m] = RotSet(cols[k]) THEN KeysFrom(cols, k + 1, acc)
  ELSE KeysFrom(cols, k + 1, Append(acc, RotSet(cols[k])))
GroupKeys(L) == KeysFrom(L.cols, 1, << >>)
NumGroups(L) == Len(GroupKeys(L))

Members(L, key) == SelectSeq([k \in 1..Len(L.cols) |-> k], LAMBDA k : RotSet(L.cols[k]) = key)

\* value at x of the polynomial through (pts[k], vals[k])
InterpAt(pts, vals, x) ==
  LET m == Len(pts)
      RECURSIVE Num(_, _, _)
      Num(k, j, d) == IF j > m THEN 1 ELSE IF j = k THEN Num(k, j + 1, d)
                      ELSE Mul(Sub(d, pts[j]), Num(k, j + 1, d))
  IN SumSeq([k \in 1..m |-> Mul(vals[k], Div(Num(k, 1, x), Num(k, 1, pts[k])))])
VanishAt(pts, x) == ProdSeq([k \in 1..Len(pts) |-> Sub(x, pts[k])])

\* claims[i] follows the order of cols[i].rots
ClaimOf(L, claims, i, r) == Nm(claims[i][CHOOSE k \in 1..Len(L.cols[i].rots) : L.cols[i].rots[k] = r])

Group(L, claims, mem, x1, x3) ==
  LET rots == L.cols[mem[1]].rots
      pts == [k \in 1..Len(rots) |-> Pt(L, rots[k])]
      w == [i \in 1..Len(mem) |-> PowF(x1, i - 1)]
      vals == [k \in 1..Len(rots) |-> SumSeq([i \in 1..Len(mem) |-> Mul(w[i], ClaimOf(L, claims, mem[i], rots[k]))])]
  IN [Q |-> SumSeq([i \in 1..Len(mem) |-> Mul(w[i], Horner([m \in 1..Len(L.cols[mem[i]].co) |-> Nm(L.cols[mem[i]].co[m])], x3))]),
      r |-> InterpAt(pts, vals, x3), z |-> VanishAt(pts, x3)]

\* the value f has to take at x3; mems = members of each group, in the order the groups are counted
Required(L, claims, q, ch, mems) ==
  LET G == [g \in 1..Len(mems) |-> Group(L, claims, mems[g], ch[1], ch[3])] IN
  Add(SumSeq([g \in 1..Len(mems) |-> Mul(PowF(ch[2], g - 1), Div(Sub(Nm(q[g]), G[g].r), G[g].z))]),
      SumSeq([g \in 1..Len(mems) |-> Mul(PowF(ch[4], g), Sub(Nm(q[g]), G[g].Q))]))

Perms(s) == {t \in [1..Len(s) -> {s[k] : k \in 1..Len(s)}] : \A a, b \in 1..Len(s) : a # b => t[a] # t[b]}
=============================================================================
