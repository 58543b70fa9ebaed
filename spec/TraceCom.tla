------------------------------ MODULE TraceCom ------------------------------
(* Programs run on real commitments, against the formal registers of Com. *)
EXTENDS Com, TraceLoop
AsPairs(s) == {<<s[k][1], s[k][2]>> : k \in 1..Len(s)}
One(prog, r) ==
  LET regs == Exec(Base, prog)
      m == Len(regs)
      last == regs[m]
  IN
  IF ~r.ok THEN "failed: " \o r.why
  ELSE IF AsPairs(r.eq) # {p \in (0..(m - 1)) \X (0..(m - 1)) : regs[p[1] + 1] = regs[p[2] + 1]} THEN "equality of commitments"
  ELSE IF {r.zero[k] : k \in 1..Len(r.zero)} # {k \in 0..(m - 1) : regs[k + 1] = VZero} THEN "zero recognised wrongly"
  ELSE IF ~r.opened THEN "the combination does not open to the combined value"
  ELSE IF \E k \in 1..Len(r.wrong) : r.wrong[k] THEN "the combination opens to another value"
  \* another register opens to this value with this proof only if it is the same combination
  ELSE IF \E k \in 1..Len(r.other) : r.other[k] # (regs[k] = last) THEN "another commitment opens in its place"
  \* the commitment of the combined polynomial without randomness
  ELSE IF r.plain # PlainOnly(last) THEN "commitment of the combined polynomial"
  ELSE "ok"
Judge(t) ==
  LET bad == {k \in 1..Len(t.progs) : One(t.progs[k], t.res[k]) # "ok"} IN
  IF bad = {} THEN "ok" ELSE LET k == CHOOSE x \in bad : TRUE IN One(t.progs[k], t.res[k]) \o ": " \o ToJson(t.progs[k])
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
