----------------------------- MODULE TraceGates -----------------------------
(* Values of the real precompiled gates on the rows of a table, against Gates. *)
EXTENDS Gates, TraceLoop

RowOf(cols, n, row) == [k \in 1..Len(cols) |-> Nm(cols[k][(row % n) + 1])]
IsLookup(g) == Len(g) > 7 /\ SubSeq(g, 1, 7) = "lookup:"
AsSet(s) == {<<s[k][1], s[k][2]>> : k \in 1..Len(s)}
BadRow(t, row) ==
  (t.vals[1][row + 1] = 0) # Holds(t.gate, RowOf(t.wit, t.n, row), RowOf(t.wit, t.n, row + 1), RowOf(t.inst, t.n, row), RowOf(t.fix, t.n, row))
Judge(t) ==
  IF ~(AsSet(t.reads) \subseteq AsSet(t.regs)) THEN t.gate \o ": reads a column and rotation it does not register"
  ELSE IF ~(AsSet(t.reads) \subseteq Reads(t.gate)) THEN t.gate \o ": reads something outside the relation"
  ELSE IF ~(Reads(t.gate) \subseteq AsSet(t.regs)) THEN t.gate \o ": does not register what the relation is about"
  ELSE IF IsLookup(t.gate) THEN
    IF Len(t.vals) # Len(t.tabs) \/ Len(t.vals) # Cardinality(Reads(t.gate)) \div 2 THEN t.gate \o ": width"
    \* some input column k is paired with table column k, whatever the order of the pairs
    ELSE IF \A k \in 1..Len(t.vals) : \E m \in 1..Len(t.vals) : t.vals[m] = t.wit[k] /\ t.tabs[m] = t.tab[k] THEN "ok"
    ELSE t.gate \o ": input and table columns are paired differently"
  ELSE LET bad == {row \in 0..(t.n - 1) : BadRow(t, row)} IN
    IF bad = {} THEN "ok"
    ELSE LET row == CHOOSE x \in bad : TRUE IN
      t.gate \o ": value " \o ToString(t.vals[1][row + 1]) \o " on " \o
        ToJson([w |-> RowOf(t.wit, t.n, row), wn |-> RowOf(t.wit, t.n, row + 1), i |-> RowOf(t.inst, t.n, row), f |-> RowOf(t.fix, t.n, row)])
Next == Step(Judge(Trace[l]))
Spec == Init /\ [][Next]_l
=============================================================================
