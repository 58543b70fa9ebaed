----------------------------- MODULE TraceBlind -----------------------------
(***************************************************************************)
(* Everything several proofs of one statement commit to, as opaque tokens  *)
(* (equal token = equal field element; 1 is zero, 2 is one).  A token is   *)
(* fresh when it occurs once in all the proofs together.                   *)
(* Items: kind w witness, l permuted lookup columns, lz lookup products,   *)
(* z copy products, t quotient chunks, f batched opening.                  *)
(***************************************************************************)
EXTENDS Proof, TraceLoop

\* first row filled with randomness
BlindFrom(C, kind) ==
  CASE kind = "l" -> C.usable
    [] kind = "lz" -> C.usable + 1
    [] kind = "z" -> C.u + 1
    [] OTHER -> C.n
RandomRows(C, it) == IF BlindFrom(C, it.kind) >= C.n THEN << >> ELSE SubSeq(it.rows, BlindFrom(C, it.kind) + 1, C.n)
FixedRows(C, it) == SubSeq(it.rows, 1, IF BlindFrom(C, it.kind) > C.n THEN C.n ELSE BlindFrom(C, it.kind))

RECURSIVE Concat(_)
Concat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Concat(Tail(s))
Random(C, run) == Concat([k \in 1..Len(run.items) |-> run.items[k].hid \o RandomRows(C, run.items[k])])
ToSet(s) == {s[k] : k \in 1..Len(s)}
\* values determined by statement and challenges (the quotient and the batched opening are masked as a whole)
Determined(C, run) ==
  UNION {ToSet(FixedRows(C, run.items[k])) : k \in {k \in 1..Len(run.items) : run.items[k].kind \in {"w", "l", "lz", "z"}}}

Kinds(run) == [k \in 1..Len(run.items) |-> <<run.items[k].kind, run.items[k].i>>]
CountKind(run, x) == Cardinality({k \in 1..Len(run.items) : run.items[k].kind = x})
Complete(C, run, nz, ch) ==
  /\ CountKind(run, "w") = Len(C.wit) /\ CountKind(run, "l") = 2 * NL(C) /\ CountKind(run, "lz") = NL(C)
  /\ CountKind(run, "z") = nz /\ CountKind(run, "t") = ch /\ CountKind(run, "f") = 1
Shape(C, run) == \A k \in 1..Len(run.items) :
  /\ Len(run.items[k].rows) = C.n

Judge(t) ==
  LET C == t.circ IN
  IF t.status # "ok" THEN "no proof: " \o t.status
  ELSE LET runs == t.runs
           R == 1..Len(runs)
           all == Concat([k \in R |-> Random(C, runs[k])])
           nz == CountKind(runs[1], "z")  ch == CountKind(runs[1], "t")
           bare == {<<r, k>> \in UNION {{r} \X (1..Len(runs[r].items)) : r \in R} : runs[r].items[k].hid = << >>}
       IN
  IF \E r \in R : runs[r].verdict # "accept" THEN "blinding changes the verdict"
  ELSE IF nz # (IF Len(C.sigma) = 0 THEN 0 ELSE CeilD(Len(C.sigma), ch - 1)) THEN "aggregation polynomials"
  ELSE IF \E r \in R : ~Complete(C, runs[r], nz, ch) THEN "commitments missing"
  ELSE IF \E r \in R : ~Shape(C, runs[r]) THEN "columns of the wrong length"
  ELSE IF bare # {} THEN LET b == CHOOSE x \in bare : TRUE IN "commitment without hiding: " \o ToString(Kinds(runs[b[1]])[b[2]])
  ELSE IF \E r \in R : \E k \in 1..Len(runs[r].items) : runs[r].items[k].hz THEN "zero used as hiding randomness"
  ELSE IF Cardinality(ToSet(all)) # Len(all) THEN "randomness reused"
  ELSE IF ToSet(all) \cap {1, 2} # {} THEN "rows after the usable ones are not random"
  ELSE IF \E r \in R : ToSet(all) \cap Determined(C, runs[r]) # {} THEN "randomness equals determined values"
  ELSE IF \E r \in R : \E k \in 1..Len(runs[r].items) :
            runs[r].items[k].kind \in {"w", "l", "lz", "z"} /\ FixedRows(C, runs[r].items[k]) # FixedRows(C, runs[1].items[k])
       THEN "blinding changes usable rows"
  ELSE "ok"
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
