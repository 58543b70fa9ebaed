---------------------------- MODULE TracePermute ----------------------------
(* Results of the real rearrangement, many cases per line. *)
EXTENDS PermuteRel, TraceLoop
One(c, r) ==
  IF r.ok # Accepts(c.a, c.s) THEN IF r.ok THEN "a result for an input outside the table" ELSE "no result"
  ELSE IF ~r.ok THEN "ok"
  ELSE IF ~Rearranged(c.a, r.pa) THEN "the permuted input is no rearrangement of the input"
  ELSE IF ~Rearranged(c.s, r.ps) THEN "the permuted table is no rearrangement of the table"
  ELSE IF ~Aligned(r.pa, r.ps) THEN "rows do not match the table or their predecessor"
  ELSE "ok"
Judge(t) ==
  LET bad == {i \in 1..Len(t.cases) : One(t.cases[i], t.res[i]) # "ok"}
  IN IF bad = {} THEN "ok" ELSE LET i == CHOOSE k \in bad : TRUE IN
       One(t.cases[i], t.res[i]) \o ": " \o ToJson([c |-> t.cases[i], r |-> t.res[i]])
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
