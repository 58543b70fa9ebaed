----------------------------- MODULE TraceIndex -----------------------------
(***************************************************************************)
(* What the indexer returned for a circuit, from prover-side and from      *)
(* verifier-side columns.  P is the field the harness ran in.              *)
(***************************************************************************)
EXTENDS Sizes, TraceLoop

CONSTANT MaxSub

RECURSIVE ZHat(_, _, _, _)
\* vanishing polynomial at x: one root per enforced row
ZHat(C, om, S, x) == IF S = {} THEN 1
  ELSE LET i == CHOOSE y \in S : TRUE IN Mul(Sub(x, PowF(om, i)), ZHat(C, om, S \ {i}, x))
Plain(C, x) == Sub(PowF(x, C.n), 1)
\* the extended coset: generator times the powers of a root of unity of order ext
CosetPoint(r, i) == Mul(r.gen, PowF(r.extgen, i))
\* root of unity of the rows: the power of the one of the extended domain
RowGen(C, r) == PowF(r.extgen, r.ext \div C.n)
InversesExact(C, r) ==
  /\ Len(r.inv) = r.ext
  /\ \A i \in 1..r.ext :
       Mul(Mul(r.inv[i], Nm(C.zscale)),
           IF Len(C.removed) = 0 THEN Plain(C, CosetPoint(r, i - 1))
           ELSE ZHat(C, RowGen(C, r), Enforced(C), CosetPoint(r, i - 1))) = 1
IsRootOfOrder(x, k) == PowF(x, k) = 1 /\ (k = 1 \/ PowF(x, k \div 2) # 1)

\* in a tiny field the extended domain may be the whole multiplicative group:
\* then its coset meets the rows and the vanishing polynomial has no inverses
WholeGroup(r) == P > 0 /\ r.ext = P - 1

JudgeOk(C, r) ==
  IF ~IsPow2(r.ext) \/ r.ext < C.n THEN "extended domain of size " \o ToString(r.ext)
  ELSE IF ~Fits(C, r.ext) THEN "extended domain of size " \o ToString(r.ext) \o " cannot hold the quotient"
  ELSE IF r.usable # C.usable THEN "usable rows"
  ELSE IF r.nlk # Len(C.lookups) THEN "number of lookups"
  ELSE IF NCopied(C) > 0 /\ (r.nz * ((r.ext \div C.n) - 1) < NCopied(C) \/ (r.nz - 1) * ((r.ext \div C.n) - 1) >= NCopied(C)) THEN "number of aggregation polynomials"
  ELSE IF NCopied(C) = 0 /\ r.nz # 0 THEN "aggregation polynomials without copied columns"
  ELSE IF r.ninv # r.ext THEN "number of inverses"
  ELSE IF WholeGroup(r) THEN "ok"
  ELSE IF ~r.inv_exact THEN "inverses of the vanishing polynomial"
  ELSE IF P > 0 /\ ~(IsRootOfOrder(r.extgen, r.ext) /\ InversesExact(C, r)) THEN "inverses of the vanishing polynomial (values)"
  ELSE "ok"

Kind(s) == IF s = "ok" THEN "ok" ELSE IF SubSeq(s, 1, 4) = "err:" THEN "err" ELSE "panic"
Judge(t) ==
  LET C == t.circ IN
  IF t.p.kind = "panic" \/ t.v.kind = "panic" THEN "the indexer panics"
  ELSE IF t.p.kind # t.v.kind THEN "prover side " \o t.p.kind \o ", verifier side " \o t.v.kind
  ELSE IF t.p.kind = "err" THEN (IF Refusable(C, MaxSub) THEN "ok" ELSE "a supported circuit is refused")
  ELSE IF t.p.r # t.v.r THEN "prover side and verifier side differ"
  ELSE JudgeOk(C, t.p.r)
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
