------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* A verifier whose inputs are reused for a sequence of verifications.     *)
(* Its only state that matters is the statement, which verification never  *)
(* changes, so the verdict of (statement s, proof p) is a function of s    *)
(* and p.  TLC enumerates every sequence of up to Len verifications and    *)
(* prints it for the harness; TraceHistory checks the recorded verdicts.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS S, P, MaxLen     \* number of statements, proofs, verifications

Steps == (0..(S - 1)) \X (0..(P - 1))
\* verdict table of an arbitrary deterministic verifier
Verdicts == [Steps -> {"accept", "reject"}]

VARIABLES hist, statement, log
vars == <<hist, statement, log>>
table == [st \in Steps |-> IF st[1] = st[2] THEN "accept" ELSE "reject"]

Init == hist = << >> /\ statement = "as indexed" /\ log = << >>
Verify(st) == /\ Len(hist) < MaxLen
              /\ hist' = Append(hist, st)
              /\ log' = Append(log, table[st])
              /\ UNCHANGED statement
              /\ IF Len(hist') = MaxLen THEN PrintT("HIST " \o ToJson(hist')) ELSE TRUE
Next == \E st \in Steps : Verify(st)
Spec == Init /\ [][Next]_vars

Independent == \A k \in 1..Len(hist) : log[k] = table[hist[k]]
StatementKept == [][statement' = statement]_vars
=============================================================================
