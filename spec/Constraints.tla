---------------------------- MODULE Constraints ----------------------------
(***************************************************************************)
(* The polynomial identities the verifier has to enforce at its evaluation *)
(* point, as functions of the claimed evaluations.  D is a record of       *)
(* claimed evaluations with the challenges:                                *)
(*   om generator of the domain, xi, theta, beta, gamma, alpha powers are  *)
(*   not part of it; wit/fix/tab/z = sequences of [l |-> label, r |->      *)
(*   rotation (0..n-1), v |-> value]; sig, qb, lk (3 per lookup), lkz (2).  *)
(***************************************************************************)
EXTENDS Circuit, TLC

\* claimed value of the column labelled lab at rotation r
At(C, s, lab, r) ==
  LET rr == r % C.n IN
  IF \E k \in 1..Len(s) : s[k].l = lab /\ s[k].r = rr
  THEN s[CHOOSE k \in 1..Len(s) : s[k].l = lab /\ s[k].r = rr].v
  ELSE Assert(FALSE, <<"no claimed evaluation", lab, r>>)

PointAt(C, D, r) == Mul(D.xi, Omega(D.om, C.n, r % C.n))

QueryValue(C, D, q) ==
  CASE q[1] = "w" -> At(C, D.wit, C.wit[q[2] + 1].label, q[3])
    [] q[1] = "f" -> At(C, D.fix, C.fix[q[2] + 1].label, q[3])
    [] q[1] = "i" -> LagrangeAt(C.inst[q[2] + 1].rows, D.om, C.n, PointAt(C, D, q[3]))

EvalAt(C, D, e) == EvalEnv(e, [q \in Queries(e) |-> QueryValue(C, D, q)])

L0(C, D) == BasisAt(0, D.om, C.n, D.xi)
Lu(C, D, u) == BasisAt(u, D.om, C.n, D.xi)
Active(C, D, u) == Sub(1, Add(Lu(C, D, u), D.qb))

GateTerms(C, D) == [k \in 1..Len(C.gates) |-> EvalAt(C, D, C.gates[k])]

--------------------------------------------------------------------------
\* copy argument: columns split over nz aggregation polynomials, m per polynomial
ZLabel(k) == "agg_permutation_" \o ToString(k)
Chunk(C, m, k) == LET pc == PermCols(C) IN
  [x \in {c \in 1..Len(pc) : (c - 1) \div m = k} |-> pc[x]]

RECURSIVE ProdOver(_, _)
ProdOver(S, f) == IF S = {} THEN 1
                  ELSE LET x == CHOOSE y \in S : TRUE IN Mul(f[x], ProdOver(S \ {x}, f))

PermStep(C, D, m, k, be, ga) ==
  LET cols == Chunk(C, m, k)
      S == DOMAIN cols
      w == [c \in S |-> At(C, D.wit, C.wit[cols[c] + 1].label, 0)]
      left == ProdOver(S, [c \in S |-> Add(w[c], Add(Mul(be, D.sig[c]), ga))])
      right == ProdOver(S, [c \in S |-> Add(w[c], Add(Mul(be, Mul(Nm(C.deltas[c]), D.xi)), ga))])
  IN Mul(Active(C, D, C.u),
         Sub(Mul(At(C, D.z, ZLabel(k), 1), left), Mul(At(C, D.z, ZLabel(k), 0), right)))

PermTerms(C, D, be, ga) ==
  IF D.nz = 0 THEN << >>
  ELSE LET m == D.chunks - 1
           z(k, r) == At(C, D.z, ZLabel(k), r)
           last == D.nz - 1
       IN <<Mul(L0(C, D), Sub(1, z(0, 0)))>>
          \o [k \in 1..D.nz |-> PermStep(C, D, m, k - 1, be, ga)]
          \o [k \in 1..last |-> Mul(L0(C, D), Sub(z(k, 0), z(k - 1, C.u)))]
          \o <<Mul(Lu(C, D, C.u), Sub(Mul(z(last, 0), z(last, 0)), z(last, 0)))>>

\* number of aggregation polynomials needed
CeilDiv(a, b) == (a + b - 1) \div b
ZCount(C, chunks) == IF Len(PermCols(C)) = 0 THEN 0 ELSE CeilDiv(Len(PermCols(C)), chunks - 1)

--------------------------------------------------------------------------
\* lookups: the tuple is folded with powers of theta
Fold(s, th, rev) == IF rev THEN Horner([k \in 1..Len(s) |-> s[Len(s) + 1 - k]], th) ELSE Horner(s, th)

LookupTerms(C, D, k, th, be, ga, rev) ==
  LET l == C.lookups[k]
      a == Fold([x \in 1..Len(l.exprs) |-> EvalAt(C, D, l.exprs[x])], th, rev)
      s == Fold([x \in 1..Len(l.tables) |->
                   At(C, D.tab, C.tab[l.tables[x].i + 1].label, l.tables[x].r)], th, rev)
      ap == D.lk[3 * k - 2]
      aprev == D.lk[3 * k - 1]
      sp == D.lk[3 * k]
      z == D.lkz[2 * k - 1]
      zn == D.lkz[2 * k]
      act == Active(C, D, C.usable)
  IN << Mul(L0(C, D), Sub(1, z)),
        Mul(act, Sub(Mul(zn, Mul(Add(ap, be), Add(sp, ga))), Mul(z, Mul(Add(a, be), Add(s, ga))))),
        Mul(Lu(C, D, C.usable), Sub(Mul(z, z), z)),
        Mul(L0(C, D), Sub(ap, sp)),
        Mul(act, Mul(Sub(ap, sp), Sub(ap, aprev))) >>

RECURSIVE AllLookupTerms(_, _, _, _, _, _, _)
AllLookupTerms(C, D, k, th, be, ga, rev) ==
  IF k > Len(C.lookups) THEN << >>
  ELSE LookupTerms(C, D, k, th, be, ga, rev) \o AllLookupTerms(C, D, k + 1, th, be, ga, rev)

--------------------------------------------------------------------------
\* value of the vanishing polynomial: one root per enforced row
RECURSIVE ZHFrom(_, _, _)
ZHFrom(C, D, S) == IF S = {} THEN 1
  ELSE LET i == CHOOSE x \in S : TRUE
       IN Mul(Sub(D.xi, Omega(D.om, C.n, i)), ZHFrom(C, D, S \ {i}))
ZHAt(C, D) == ZHFrom(C, D, Enforced(C))
=============================================================================
