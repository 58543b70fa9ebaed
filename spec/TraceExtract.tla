---------------------------- MODULE TraceExtract ----------------------------
(***************************************************************************)
(* The quantity the verifier requires to vanish, recovered from verdicts   *)
(* as a polynomial in the separation challenge alpha, against the sum of   *)
(* all constraint terms with one distinct power of alpha each.             *)
(***************************************************************************)
EXTENDS Constraints, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
W == 8
VARIABLE l

Canon(x) == IF x > P - x THEN P - x ELSE x       \* up to sign
NonZero(s) == SelectSeq(s, LAMBDA x : x # 0)
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])

Terms(C, D, th, be, ga, rev) ==
  GateTerms(C, D) \o PermTerms(C, D, be, ga) \o AllLookupTerms(C, D, 1, th, be, ga, rev)

\* coefficients of R(alpha), where v(alpha) * zh(xi) = R(alpha)
Coefs(C, D) == LET zh == ZHAt(C, D) IN [k \in 1..Len(D.coefs) |-> Mul(D.coefs[k], zh)]

Unique(D) == \A k \in 1..Len(D.samples) : Len(D.samples[k].acc) = 1
Interpolated(D) == \A k \in 1..Len(D.samples) : Horner(D.coefs, D.samples[k].a) = D.samples[k].acc[1]
Enough(C, D) == Len(D.samples) > Len(C.gates) + 2 * D.nz + 1 + 5 * Len(C.lookups)
Matches(C, D) ==
  LET co == [k \in 1..Len(NonZero(Coefs(C, D))) |-> Canon(NonZero(Coefs(C, D))[k])] IN
  \E rev \in BOOLEAN : \E sw \in BOOLEAN :
     LET be == IF sw THEN D.gamma ELSE D.beta
         ga == IF sw THEN D.beta ELSE D.gamma
         te == NonZero(Terms(C, D, D.theta, be, ga, rev))
     IN SameBag(co, [k \in 1..Len(te) |-> Canon(te[k])])
\* chunk k of the quotient counts xi^(n k)
Weights(C, D) ==
  LET a == D.walpha
      v == D.samples[CHOOSE k \in 1..Len(D.samples) : D.samples[k].a = a].acc[1]
  IN \A k \in 1..Len(D.wts) :
       IF Len(D.wts[k]) = 1 THEN Mul(D.wts[k][1], PowF(D.xi, C.n * (k - 1))) = v ELSE FALSE
ZOK(C, D) == D.nz = ZCount(C, D.chunks)

Judge(t) ==
  LET C == t.circ D == t.d IN
  IF D.status # "ok" THEN "status:" \o D.status
  ELSE IF ~Unique(D) THEN "not determined by the quotient"
  ELSE IF ~Interpolated(D) THEN "not a polynomial in alpha of the expected degree"
  ELSE IF ~Enough(C, D) THEN "too few samples"
  ELSE IF ~ZOK(C, D) THEN "aggregation polynomials"
  ELSE IF ~Matches(C, D) THEN
     \* the row u of a placeholder PermutationInfo is 0, whatever the usable rows are
     IF Matches([C EXCEPT !.usable = 0], D) THEN "lookup constraints enforced at row 0 instead of the usable rows"
     ELSE "constraints"
  ELSE IF ~Weights(C, D) THEN "chunk weights"
  ELSE "ok"

Init == l \in {k \in 1..N : k <= W}
Next == /\ l <= N
        /\ LET j == Judge(Trace[l]) IN
           IF j = "ok" THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> Trace[l].id, why |-> j]))
        /\ l' = l + W
Spec == Init /\ [][Next]_l
Bound == l <= N + W
=============================================================================
