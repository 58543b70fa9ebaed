----------------------------- MODULE TraceMock -----------------------------
(***************************************************************************)
(* The mock prover accepts exactly the assignments making every gate zero  *)
(* on every row; what it names as the culprit (gate and row, counted from   *)
(* zero) is one.                                                           *)
(***************************************************************************)
EXTENDS Circuit, TraceLoop

Judge(t) ==
  IF t.mock = (IF MockSatisfied(t.circ) THEN "accept" ELSE "refused")
  THEN IF t.at = <<>> THEN "ok"
       ELSE IF t.at[1] < Len(t.circ.gates) /\ t.at[2] \in Rows(t.circ) /\ EvalRow(t.circ, t.circ.gates[t.at[1] + 1], t.at[2]) # 0 THEN "ok"
       ELSE "mock prover: the gate it names is zero on the row it names"
  ELSE "mock prover: " \o t.mock \o (IF MockSatisfied(t.circ) THEN ", but every gate is zero on every row" ELSE ", but some gate is not zero on some row")
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
