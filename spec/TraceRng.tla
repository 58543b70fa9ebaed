------------------------------ MODULE TraceRng ------------------------------
(***************************************************************************)
(* Runs of the real generator.  A line holds programs and the values they  *)
(* drew.  The key of a draw is what Rng says determines it; equal keys must *)
(* come with equal values and different absorbed histories with different  *)
(* values.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceLoop

RECURSIVE Walk(_, _, _, _, _, _)
\* records <<history, draws so far, kind, value>>
Walk(ops, out, i, h, d, acc) ==
  IF i > Len(ops) THEN acc
  ELSE IF ops[i].o \in {"init", "absorb"} THEN Walk(ops, out, i + 1, Append(h, ops[i].d), << >>, acc)
  ELSE Walk(ops, Tail(out), i + 1, h, Append(d, ops[i].o), acc \cup {<<h, d, ops[i].o, Head(out)>>})
Recs(t) == UNION {Walk(t.progs[k], t.res[k], 1, << >>, << >>, {}) : k \in 1..Len(t.progs)}
Keys(S) == {<<r[1], r[2], r[3]>> : r \in S}
\* wide draws at the start of a period: different histories, different values
Wide(S) == {<<r[1], r[4]>> : r \in {x \in S : x[2] = << >> /\ x[3] = "u64"}}
\* successive wide draws of one period
Later(S) == {<<r[1], r[2], r[4]>> : r \in {x \in S : x[3] = "u64"}}
Judge(t) ==
  LET S == Recs(t) IN
  IF Cardinality(Keys(S)) # Cardinality(S) THEN "equal histories drew different values"
  ELSE IF Cardinality({w[1] : w \in Wide(S)}) # Cardinality({w[2] : w \in Wide(S)}) THEN "different histories drew the same value"
  ELSE IF Cardinality({<<x[1], Len(x[2])>> : x \in {y \in Later(S) : \A k \in 1..Len(y[2]) : y[2][k] = "u64"}})
          # Cardinality({x[3] : x \in {y \in Later(S) : \A k \in 1..Len(y[2]) : y[2][k] = "u64"}}) THEN "a value is drawn twice"
  ELSE "ok"
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
