---------------------------- MODULE TraceHistory ----------------------------
(***************************************************************************)
(* Recorded runs of History on the implementation: every verdict equals    *)
(* the one obtained with fresh inputs, and proofs made with reused prover  *)
(* inputs are accepted.                                                    *)
(***************************************************************************)
EXTENDS TraceLoop

Wrong(t) == {<<r, k>> \in UNION {{r} \X (1..Len(t.histories[r])) : r \in 1..Len(t.histories)} :
               t.runs[r][k] # t.fresh[t.histories[r][k][1] + 1][t.histories[r][k][2] + 1]}
Judge(t) ==
  IF "rekey" \in DOMAIN t THEN
     IF \A k \in 1..Len(t.rekey) : t.rekey[k] = "accept" THEN "ok" ELSE "prover columns used with two keys: " \o ToString(t.rekey)
  ELSE IF t.base # "ok" THEN "no proof: " \o t.base
  ELSE IF Len(t.runs) # Len(t.histories) THEN "runs missing"
  ELSE IF \E k \in 1..Len(t.runs) : Len(t.runs[k]) # Len(t.histories[k]) THEN "verifications missing"
  ELSE IF Wrong(t) # {} THEN
     LET w == CHOOSE x \in Wrong(t) : TRUE IN
       "verification " \o ToString(w[2]) \o " of history " \o ToString(t.histories[w[1]]) \o " says " \o t.runs[w[1]][w[2]]
  ELSE IF \E s \in 1..Len(t.fresh) : \E p \in 1..Len(t.fresh[s]) : t.fresh[s][p] # t.expect[s][p]
     THEN "verdict with fresh inputs " \o ToString(t.fresh)
  ELSE IF \E k \in 1..Len(t.reuse) : t.reuse[k] # "accept" THEN "reused prover inputs: " \o ToString(t.reuse)
  ELSE "ok"
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
