------------------------------ MODULE TraceRot ------------------------------
(***************************************************************************)
(* Rotations: a shift by k rows, whichever way a column is read.  With     *)
(* P > 0 the points and the values at them are recomputed.                 *)
(***************************************************************************)
EXTENDS Fld, TraceLoop

ShiftOf(i, k, m) == (i + k) % m
Omg(t) == PowF(t.extgen, t.ratio)
CosetPt(t, j) == Mul(t.gen, PowF(t.extgen, j))

One(t, r) ==
  LET n == t.n
      E == t.n * t.ratio
  IN
  IF ~r.ok THEN "no value: " \o r.why
  ELSE IF Len(r.rows) # n \/ \E i \in 0..(n - 1) : r.rows[i + 1] # t.rows[ShiftOf(i, r.k, n) + 1] THEN "rows"
  ELSE IF Len(r.coset) # E \/ \E j \in 0..(E - 1) : r.coset[j + 1] # t.ext[ShiftOf(j, r.k * t.ratio, E) + 1] THEN "extended coset"
  ELSE IF r.pt # r.pt2 THEN "two shifted points"
  ELSE IF ~r.missing THEN "a value nobody registered"
  ELSE IF \E k \in 1..Len(r.others) : r.others[k] # r.v THEN "column types disagree at the shifted point"
  ELSE IF P > 0 /\ r.pt # Mul(t.x, PowF(Omg(t), ShiftOf(0, r.k, n))) THEN "shifted point"
  ELSE IF P > 0 /\ r.v # Horner(t.coeffs, r.pt) THEN "value at the shifted point"
  ELSE "ok"
Shared(t) ==
  LET E == t.n * t.ratio IN
  IF Len(t.ext) # E THEN "extended evaluations"
  ELSE IF t.deg # t.n - 1 THEN "degree"
  ELSE IF P > 0 /\ \E i \in 0..(t.n - 1) : t.rows[i + 1] # Horner(t.coeffs, PowF(Omg(t), i)) THEN "harness: not the polynomial of the rows"
  ELSE IF P > 0 /\ \E j \in 0..(E - 1) : t.ext[j + 1] # Horner(t.coeffs, CosetPt(t, j)) THEN "extended evaluations"
  ELSE IF t.type # "fd" /\ t.before \notin {"err:MissingCosetWitnessEval", "err:MissingCosetFixedEval", "err:MissingCosetInstanceEval"} THEN "reading extended evaluations that do not exist: " \o t.before
  ELSE "ok"
Judge(t) ==
  IF Shared(t) # "ok" THEN Shared(t)
  ELSE LET bad == {i \in 1..Len(t.res) : One(t, t.res[i]) # "ok"} IN
       IF bad = {} THEN "ok"
       ELSE LET i == CHOOSE x \in bad : TRUE IN "rotation " \o ToString(t.res[i].k) \o ": " \o One(t, t.res[i])
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
